"""Jobs of the properties checked through the harnesses over the API."""
import os
import random

from . import cases as K
from . import checks_region as R
from . import harness as H
from . import lockstep as L
from . import poly as P
from . import explore as X
from . import sym as S

BIG = 2 ** 20


def api_job(name, ranges, harness, base=(), impls=('port', 'binding'),
            total=True, max_paths=60, weight=1, **more):
    return dict(name=name, max_paths=max_paths, weight=weight,
                spec=dict(name=name, ranges=ranges, base=list(base),
                          harness=harness, impls=impls, total=total, **more))


def run_api(job, deadline, seed):
    return L.job_api(job['spec'], job['max_paths'], deadline, seed)


def run_any(job, deadline, seed):
    if 'spec' in job:
        return run_api(job, deadline, seed)
    return R.run_ops_job(job, deadline, seed)


def rings_text(case):
    def describe(values):
        return repr([([(int(a), int(b)) for a, b in p], k)
                     for p, k in case['rings'](list(values))])
    return describe


def case_job(kind, case, harness, **more):
    more.setdefault('max_paths', 25)
    if case.get('start'):
        # a drawn tangle: rather others than variations of this one
        more['max_paths'] = min(more['max_paths'], 6)
        more['start'] = case['start']
    return api_job('%s %s' % (kind, case['name']), case['ranges'], harness,
                   case['base'], describe=rings_text(case), **more)


# -- inputs with concrete heights and symbolic abscissas ------------------------------
def profile(rnd, n, levels):
    return [rnd.randrange(levels) * 2 for _ in range(n)]


def profile_ring(ys):
    def make(x):
        return [(x[i], y) for i, y in enumerate(ys)]
    return make


def turned_ring(ys):
    """Symbolic ordinates over concrete abscissas."""
    def make(x):
        return [(y, x[i]) for i, y in enumerate(ys)]
    return make


def grid_ring(idx, n):
    """Vertices on symbolic lines: idx [(column, row)], n columns."""
    def make(x):
        return [(x[a], x[n + b]) for a, b in idx]
    return make


def text_of(make):
    def describe(values):
        return repr([(int(a), int(b)) for a, b in make(list(values))])
    return describe


def ring_jobs(kind, h, rnd, n, max_n=7, paths=60, **more):
    jobs = []
    for i in range(n):
        k = rnd.randint(3, max_n) if i % 5 else rnd.randint(0, 4)
        levels = rnd.randint(1, 4)
        ys = profile(rnd, k, levels)
        r = i % 4
        if r == 2:
            make, ranges, base = turned_ring(ys), [(-BIG, BIG)] * k, []
        elif r == 3:
            c = rnd.randint(2, 3)
            idx = walk(rnd, k, c)
            make = grid_ring(idx, c)
            ranges = [(-BIG, BIG)] * (2 * c)
            base = ([K.lt(j, j + 1) for j in range(c - 1)]
                    + [K.lt(c + j, c + j + 1) for j in range(c - 1)])
            ys = idx
        else:
            make, ranges, base = profile_ring(ys), [(-BIG, BIG)] * k, []
        closed = rnd.random() < 0.6
        jobs.append(api_job(
                '%s %s %s %s' % (kind, ('x', 'x', 'y', 'grid')[r], ys,
                                 'closed' if closed else 'open'),
                ranges or [(0, 0)], h(make, closed), base,
                describe=text_of(make), max_paths=paths, **more))
    return jobs


_RINGS = []


def kept_rings():
    """Rings which lead to rarely executed places of the splitting of rings
    into edges (found by tools/rings.py)."""
    if not _RINGS:
        with open(os.path.join(os.path.dirname(__file__), 'rings.txt')) as f:
            for line in f:
                _RINGS.append([tuple(map(int, p.split('.')))
                               for p in line.strip().split(',')])
    return _RINGS


def kept_ring_jobs(kind, h, rnd, n, paths=6, **more):
    """Kept rings, turned and scaled, with symbolic abscissas or ordinates."""
    jobs = []
    some = kept_rings()
    if n < len(some):
        some = rnd.sample(some, n)
    for ring in some:
        k = rnd.choice([2, 6, 60])
        t = rnd.randrange(4)
        ring = [(k * a * (1 - t % 2 * 2), k * b * (1 - t // 2 * 2))
                for a, b in ring]
        if rnd.random() < 0.3:
            ring = ring[::-1]
        xs, ys = [a for a, _ in ring], [b for _, b in ring]
        if rnd.random() < 0.5:
            make, start, fixed = profile_ring(ys), xs, ys
        else:
            make, start, fixed = turned_ring(xs), ys, xs
        jobs.append(api_job(
                '%s kept %s %s' % (kind, start, fixed),
                [(-BIG, BIG)] * len(ring), h(make, False),
                describe=text_of(make), max_paths=paths, start=start,
                flips=paths, **more))
    return jobs


def walk(rnd, n, c):
    """Rectilinear closed walk over a c x c grid (with spikes)."""
    a, b = rnd.randrange(c), rnd.randrange(c)
    out = [(a, b)]
    for i in range(n):
        if rnd.random() < 0.5:
            a = rnd.randrange(c)
        else:
            b = rnd.randrange(c)
        out.append((a, b))
    return out


def simple_templates(rnd):
    """Simple rings with concrete heights: two monotone chains."""
    k = rnd.randint(1, 3)
    ys = [0] + sorted(rnd.sample(range(2, 18, 2), k)) + [20]
    zs = [0] + sorted(rnd.sample(range(2, 18, 2), rnd.randint(1, 3))) + [20]
    return ys, zs


def c_edges(seed, tier):
    rnd = random.Random(seed * 31 + 12)
    n = 150 if tier == 'quick' else 3000
    jobs = ring_jobs('edges', H.h_edges, rnd, n,
                     7 if tier == 'quick' else 9)
    kept = []
    for _ in range(1 if tier == 'quick' else 20):
        kept.extend(kept_ring_jobs('edges', H.h_edges, rnd, 1000))
    return R.interleave(jobs, kept)


def c_minima(seed, tier):
    rnd = random.Random(seed * 31 + 13)
    n = 90 if tier == 'quick' else 3000

    def h(make, closed):
        return H.h_minima(make, rnd.randrange(2), closed)
    jobs = ring_jobs('minima', h, rnd, n, 7 if tier == 'quick' else 9)
    kept = []
    for _ in range(1 if tier == 'quick' else 20):
        kept.extend(kept_ring_jobs('minima', h, rnd, 1000))
    return R.interleave(jobs, kept)


DIRECTIONS = [(3, 0), (-5, 0), (0, 4), (2, 2), (3, -3), (5, 2), (-5, 3),
              (1, 7), (-2, 9), (13, 4), (-7, 6), (4, 1), (-3, 1), (8, 6)]


def c_kernels(seed, tier):
    rnd = random.Random(seed * 31 + 14)
    jobs = []
    ds = list(DIRECTIONS)
    if tier != 'quick':
        ds += [(rnd.randint(-40, 40), rnd.randint(1, 40)) for _ in range(60)]
    else:
        ds += [(rnd.randint(-12, 12), rnd.randint(1, 12)) for _ in range(6)]
    for dx, dy in ds:
        if not dy:
            base = []
        else:
            # heights within the edge
            lo, hi = min(0, dy), max(0, dy)
            base = [sign(P.sub(P.sub(P.var(2), P.var(1)), P.const(lo)),
                         S.GE),
                    sign(P.sub(P.add(P.var(1), P.const(hi)), P.var(2)),
                         S.GE)]
        jobs.append(api_job('edge %s' % ((dx, dy),), [(-4096, 4096)] * 3,
                            H.h_edge((dx, dy)), base, max_paths=80))
    pairs = [(a, b) for a in ds for b in ds]
    rnd.shuffle(pairs)
    for a, b in pairs[:40 if tier == 'quick' else 1500]:
        jobs.append(api_job('crossing %s %s' % (a, b), [(-256, 256)] * 4,
                            H.h_cross(a, b), max_paths=40))
    jobs.append(api_job('points', [(-BIG, BIG)] * 6, H.h_points,
                        max_paths=200))
    jobs.append(api_job('slopes', [(-BIG, BIG)] * 3, H.h_slopes))
    jobs.append(api_job('boxes', [(-BIG, BIG)] * 8, H.h_boxes,
                        max_paths=250))
    return jobs


def sign(p, mask):
    return X.sign_constraint(p, mask)


def c_rings(seed, tier):
    rnd = random.Random(seed * 31 + 17)
    jobs = []
    n = 60 if tier == 'quick' else 2000
    for i in range(n):
        k = rnd.randint(3, 6)
        ys = profile(rnd, k, rnd.randint(2, 5))
        make = profile_ring(ys)
        if i % 2:
            jobs.append(api_job('ring %s' % ys, [(-BIG, BIG)] * k,
                                H.h_ring(make), describe=text_of(make),
                                max_paths=40))
        else:
            py = rnd.randrange(-1, 9)
            jobs.append(api_job(
                    'locate %s at %d' % (ys, py), [(-BIG, BIG)] * (k + 1),
                    H.h_locate(make, lambda x, k=k, py=py: (x[k], py)),
                    describe=text_of(make), max_paths=60, impls=('port',)))
    names = sorted(set(R.RECTILINEAR + R.DIAGONAL) & set(K.SHAPES)
                   - {'spike', 'dup', 'bowtie', 'hourglass', 'loop8',
                      'selfoverlap', 'pinch'})
    for i in range(n // 2):
        a, b = rnd.choice(names), rnd.choice(names)
        k = rnd.choice([20, 60, 100])
        A = K.scale(K.SHAPES[a], 20)
        B = K.scale(K.SHAPES[b], k)
        if rnd.random() < .5:
            A = A[::-1]
        if rnd.random() < .5:
            B = B[::-1]
        jobs.append(api_job(
                'nesting %s in %s' % (a, b), [(-1200, 1200)] * 2,
                H.h_inside(nesting(A, B)), max_paths=40))
    return R.interleave(
        jobs, lower_jobs(rnd, 60 if tier == 'quick' else 2000),
        sharing_jobs(rnd, 90 if tier == 'quick' else 3000))


def bottoms(rnd):
    """A ring twice at its lowest vertex."""
    n = rnd.randint(6, 9)
    i = rnd.randrange(n)
    j = (i + rnd.randint(2, n - 2)) % n
    ys = [rnd.randrange(5) * 2 for _ in range(n)]

    def make(x):
        pts = [(x[k], y) for k, y in enumerate(ys)]
        pts[i] = pts[j] = x[i], 10
        return pts
    return make, n, (i, j)


def lower_jobs(rnd, n):
    jobs = []
    for k in range(n):
        if k % 2:
            make, m, places = bottoms(rnd)
            jobs.append(api_job('bottom at %d and %d of %d %d' % (
                places + (m, k)), [(-BIG, BIG)] * m,
                H.h_bottom(make, places), describe=text_of(make),
                max_paths=40, impls=('port',)))
            continue
        ys = [profile(rnd, rnd.randint(3, 4), 3) for _ in (0, 1)]
        if rnd.random() < .8:
            for q in ys:
                q[rnd.randrange(len(q))] = 6
        m = len(ys[0])
        # often with the same lowest vertex
        shared = rnd.random() < .6
        a, b = (max(range(len(q)), key=q.__getitem__) for q in ys)

        def make(x, ys=ys, m=m, shared=shared, a=a, b=b):
            out = [[(x[i], y) for i, y in enumerate(ys[0])],
                   [(x[m + i], y) for i, y in enumerate(ys[1])]]
            if shared:
                out[1][b] = out[0][a][0], out[1][b][1]
            return out
        jobs.append(api_job(
            'lower of %s and %s' % tuple(ys), [(-BIG, BIG)] * (
                m + len(ys[1])), H.h_lower(make), max_paths=40,
            impls=('port',), describe=lambda v, make=make: repr([
                [(int(p), int(q)) for p, q in r] for r in make(list(v))])))
    return jobs


def simple_polygon(rnd, n, k):
    """A polygon with vertices on the k x k lattice, no two of its edges
    meeting elsewhere than in the vertex they share."""
    for _ in range(2000):
        pts = [(rnd.randint(0, k), rnd.randint(0, k)) for _ in range(n)]
        if len(set(pts)) < n:
            continue
        edges = [(pts[i - 1], pts[i]) for i in range(n)]
        if any(H.cross(pts[i - 2], pts[i - 1], pts[i]) == 0
               for i in range(n)):
            continue
        if any(proper(s, t) for s in edges for t in edges):
            continue
        if any(H.cross(a, b, p) == 0 and p not in (a, b)
               and min(a[0], b[0]) <= p[0] <= max(a[0], b[0])
               and min(a[1], b[1]) <= p[1] <= max(a[1], b[1])
               for a, b in edges for p in pts):
            continue
        return pts
    return [(0, 0), (k, 0), (k, k), (0, k)]


def sharers(rnd, outer):
    """Rings along the outer one with all their vertices on its vertices:
    [(indices, nested, whether a corner of it is not filled)]."""
    n = len(outer)
    edges = [(outer[i - 1], outer[i]) for i in range(n)]
    twice = [(2 * a, 2 * b) for a, b in outer]
    chords = {}
    for i in range(n):
        for j in range(n):
            if i == j or (i - j) % n in (1, n - 1):
                continue
            a, b = outer[i], outer[j]
            if any(proper((a, b), e) for e in edges):
                continue
            if any(H.cross(a, b, p) == 0 and p not in (a, b) for p in outer):
                continue
            where = H.locate((a[0] + b[0], a[1] + b[1]), twice)
            if where >= 0:
                chords[i, j] = where
    out = []
    for mask in range(1 << n):
        some = [i for i in range(n) if mask >> i & 1]
        if not 3 <= len(some) < n:
            continue
        cuts = [(some[q - 1], some[q]) for q in range(len(some))
                if (some[q] - some[q - 1]) % n != 1]
        if not all(c in chords for c in cuts):
            continue
        kinds = {chords[c] for c in cuts}
        if kinds == {0}:
            nested = True
        elif kinds == {1} and len(cuts) == 1:
            # the pocket between the chord and the outer ring
            nested = False
        else:
            continue
        ring = [outer[i] for i in some]
        s = 1 if H.area2(ring) > 0 else -1
        thrice = [(3 * a, 3 * b) for a, b in ring]
        bare = []
        for q in range(len(ring)):
            a, b, c = ring[q - 1], ring[q], ring[(q + 1) % len(ring)]
            if (s * H.cross(a, b, c) > 0
                    and H.locate((a[0] + b[0] + c[0], a[1] + b[1] + c[1]),
                                 thrice) == 1):
                bare.append(q)
        out.append((ring, nested, bare))
    return out


def sharing_jobs(rnd, n):
    """Nesting of rings with all the vertices of one on the other, stretched
    and sheared by two symbols."""
    jobs = []
    while len(jobs) < n:
        outer = simple_polygon(rnd, rnd.randint(5, 9), rnd.randint(5, 10))
        some = sharers(rnd, outer)
        if len(jobs) % 3:
            some = [t for t in some if t[2]]
        if not some:
            continue
        ring, nested, bare = rnd.choice(some)
        # the search starts at the vertex after the one of the ring
        q = (rnd.choice(bare) - 1 if bare and rnd.random() < .8
             else rnd.randrange(len(ring)))
        ring = ring[q:] + ring[:q]
        q = rnd.randrange(len(outer))
        outer = outer[q:] + outer[:q]
        if rnd.random() < .5:
            ring = ring[2::-1] + ring[:2:-1]
        if rnd.random() < .5:
            outer = outer[::-1]
        h = rnd.choice([1, 2, 5, 60])

        def make(x, ring=ring, outer=outer, nested=nested, h=h):
            def place(p):
                return p[0] * x[0] + p[1] * x[1], p[1] * h
            return [place(p) for p in ring], [place(p) for p in outer], nested
        jobs.append(api_job(
            'sharing %s %s %d' % (ring, outer, h), [(1, 2 ** 10),
                                                    (-2 ** 10, 2 ** 10)],
            H.h_inside(make), max_paths=8, start=[rnd.choice([1, 3, 40]), 0],
            describe=lambda v, make=make: repr([
                [(int(p), int(q)) for p, q in r]
                for r in make(list(v))[:2]])))
    return jobs


def nesting(A, B):
    """Ring A moved by two symbols against ring B; whether it is inside is
    known when no edges cross."""
    def make(x):
        inner = K.move(A, x[0], x[1])
        crosses = False
        for i in range(len(A)):
            s = inner[i - 1], inner[i]
            for j in range(len(B)):
                if proper(s, (B[j - 1], B[j])):
                    crosses = True
                    break
            if crosses:
                break
        nested = None
        if not crosses:
            where = [H.locate(p, B) for p in inner]
            back = [H.locate(p, inner) for p in B]
            # a vertex off the other boundary decides
            if 0 in where and 1 not in where and 0 not in back:
                nested = True
            elif 1 in where and 0 not in where:
                nested = False
        return inner, B, nested
    return make


def proper(s, t):
    (a, b), (c, d) = s, t
    u, v = H.cross(a, b, c), H.cross(a, b, d)
    if not (u > 0 and v < 0 or u < 0 and v > 0):
        return False
    w, z = H.cross(c, d, a), H.cross(c, d, b)
    return w > 0 and z < 0 or w < 0 and z > 0


FILLS = [(a, b) for a in range(4) for b in range(4)]


def c_windings(seed, tier):
    jobs = []
    for n in ((1, 2, 3, 4) if tier == 'quick' else (1, 2, 3, 4, 5, 6)):
        for k in range(0, 16, 8 if n < 4 else 2):
            jobs.append(api_job(
                    'windings %d %s' % (n, FILLS[k:k + (8 if n < 4 else 2)]),
                    [(0, 1)] * (2 * n),
                    H.h_windings(n, FILLS[k:k + (8 if n < 4 else 2)]),
                    max_paths=5000))
    for fs, fc in FILLS:
        for kind in (0, 1):
            jobs.append(api_job('contributing %s %s' % ((fs, fc), kind),
                                [(-10 ** 6, 10 ** 6)] * 2 + [(0, 1)],
                                H.h_contributing(fs, fc, kind),
                                impls=('port',), max_paths=400))
    return jobs


def c_orders(seed, tier):
    jobs = []
    top = 5 if tier == 'quick' else 6
    for n in range(2, top + 1):
        jobs.append(api_job('bubble sort %d' % n, [(-BIG, BIG)] * n,
                            H.h_bubble(n), max_paths=800))
        jobs.append(api_job('utilities %d' % n, [(-BIG, BIG)] * n,
                            H.h_utilities(n), impls=('port',),
                            max_paths=800))
    for n in (2, 3, 4):
        jobs.append(api_job('hot pixels sorting %d' % n,
                            [(-BIG, BIG)] * (2 * n), H.h_hot_sort(n),
                            max_paths=300))
    jobs.append(api_job('minima order', [(-BIG, BIG)] * 3 + [(0, 1)] * 3,
                        H.h_orders, max_paths=300))
    jobs.append(api_job('crossings order', [(-BIG, BIG)] * 2 + [(0, 1)] * 2,
                        H.h_crossing_order, max_paths=300))
    for height in (0.1, -0.1, 3.5, -2. ** 20 / 3, 1e15 / 7):
        jobs.append(api_job('crossings order near %r' % height,
                            [(0, 7), (0, 1), (0, 1), (0, 1)],
                            H.h_crossing_ulps(height), max_paths=100))
    return jobs


CLASSES = ('Point', 'Edge', 'Box', 'LinearRing', 'Polygon', 'Multipolygon',
           'Bound', 'LocalMinimum', 'LocalMinimumList', 'IntersectNode',
           'Wagyu')


def c_equality(seed, tier):
    jobs = [api_job('equality', [(-BIG, BIG)] * 8, H.h_equality,
                    max_paths=200)]
    for kind in CLASSES:
        for sign_ in (1, -1):
            jobs.append(api_job(
                    'parts of %s %+d' % (kind, sign_),
                    [(0, 20), (1, BIG) if sign_ > 0 else (-BIG, -1), (0, 9)],
                    H.h_parts(kind), max_paths=150))
    return jobs


def some_case(rnd, small=False):
    return K.twist(plain_case(rnd, small), rnd)


def plain_case(rnd, small=False):
    if rnd.random() < 0.45:
        return R.tangle(rnd, rnd.choice(['lines', 'lines', 'octagonal',
                                         'meeting', 'nested']), small=small)
    r = rnd.random()
    if r < 0.3:
        return R.random_rects(rnd, 2 if small else 3, 3 if small else 5)
    if r < 0.4:
        return R.random_cells(rnd, 2 if small else 3)
    if r < 0.8 or small:
        return R.random_shape_pair(rnd)
    return R.random_multi(rnd)


def c_pipeline(seed, tier):
    rnd = random.Random(seed * 31 + 10)
    jobs = []
    for i in range(50 if tier == 'quick' else 3000):
        case = some_case(rnd)
        op, f = rnd.randrange(4), R.random_fills(rnd)
        jobs.append(case_job('pipeline %d %s' % (op, f), case,
                             H.h_pipeline(case, op, f), total=False,
                             max_paths=15))
    more = []
    kinds = ('lines', 'tiny', 'meeting', 'general', 'octagonal', 'tiny',
             'lines', 'lengths', 'nested')
    for i in range(320 if tier == 'quick' else 16000):
        case = K.twist(R.tangle(rnd, kinds[i % len(kinds)]), rnd)
        op, f = rnd.randrange(4), R.random_fills(rnd)
        more.append(case_job('pipeline %d %s' % (op, f), case,
                             H.h_pipeline(case, op, f), total=False,
                             max_paths=3, flips=4))
    kept = []
    for kind in ('rect', 'oct', 'tiny'):
        some = K.drawn(kind)
        n = 120 if tier == 'quick' else 1000
        for op, f, walks in (some if len(some) <= n
                             else rnd.sample(some, n)):
            case = K.drawn_case(kind, walks)
            if rnd.random() < 0.4:
                case = K.twist(case, rnd)
            kept.append(case_job('pipeline %d %s' % (op, f), case,
                                 H.h_pipeline(case, op, f), total=False,
                                 max_paths=2, flips=3))
    rnd.shuffle(kept)
    front = []
    for op, f, walks in K.drawn('front'):
        case = K.drawn_case('front', walks)
        front.append(case_job('pipeline %d %s' % (op, f), case,
                              H.h_pipeline(case, op, f), total=False,
                              max_paths=3, flips=3))
    return front + R.interleave(jobs, more, kept)


def c_reverse(seed, tier):
    rnd = random.Random(seed * 31 + 7)
    jobs = []
    for i in range(110 if tier == 'quick' else 5000):
        case = some_case(rnd)
        op, f = rnd.randrange(4), R.random_fills(rnd)
        if i % 3 == 0:
            case = K.twist(R.tangle(rnd, 'nested'), rnd)
            op, f = rnd.randrange(1, 4), rnd.choice([(0, 0), (0, 0), f])
        jobs.append(case_job('reverse %d %s' % (op, f), case,
                             H.h_reverse(case, op, f), max_paths=15))
    return jobs


def random_program(rnd, n):
    steps = []
    k = rnd.randint(4, 8)
    steps.append(('add', 0))
    for _ in range(k):
        r = rnd.random()
        if r < 0.35:
            steps.append(('add', rnd.randrange(n)))
        elif r < 0.43:
            steps.append(('polygon', rnd.randrange(n)))
        elif r < 0.5:
            steps.append(('clear',))
        elif r < 0.6:
            steps.append(('bounds',))
        else:
            steps.append(('op', rnd.randrange(4)) + R.random_fills(rnd))
    steps.append(('op', rnd.randrange(4)) + R.random_fills(rnd))
    steps.append(steps[-1])
    return steps


def c_history(seed, tier):
    rnd = random.Random(seed * 31 + 8)
    jobs = []
    for i in range(60 if tier == 'quick' else 3000):
        case = some_case(rnd, small=i % 2 == 0)
        n = 4
        program = random_program(rnd, n)
        jobs.append(case_job('history %s' % (program,), case,
                             H.h_history(case, program), max_paths=10))
    return jobs


def c_bounds(seed, tier):
    rnd = random.Random(seed * 31 + 27)
    jobs = []
    for i in range(50 if tier == 'quick' else 2000):
        if i % 2:
            case = some_case(rnd, True)
        else:
            ys = [profile(rnd, rnd.randint(3, 4), 4) for _ in range(2)]
            case = profile_case(ys)
        jobs.append(case_job('bounds', case, H.h_bounds(case, i % 3 > 0,
                                                    i % 2 == 1),
                             max_paths=25))
    return jobs


def profile_case(yss):
    def rings(x):
        out = []
        k = 0
        for i, ys in enumerate(yss):
            out.append(([(x[k + j], y) for j, y in enumerate(ys)], i % 2))
            k += len(ys)
        return out
    n = sum(map(len, yss))
    return dict(name='profiles %s' % (yss,), ranges=[(-4096, 4096)] * n,
                base=[], rings=rings)


JUNK = [
    lambda x: [[]],
    lambda x: [[(x[0], x[1])]],
    lambda x: [[(x[0], 5), (x[1], 7)], [(x[1], 1)] * 3],
    lambda x: [[(x[0], x[0]), (x[1], x[1]), (7, 7)],
               [(x[1], 3), (x[0], 3), (9, 3), (2, 3)]],
    lambda x: [[(x[0], x[1]), (x[0], x[1] + 6), (x[0], x[1] + 2)]],
    lambda x: [[(0, x[0]), (0, x[1]), (0, 9), (0, x[0])], [(x[0], 0)] * 2,
               [(x[1], x[0])] * 4],
    lambda x: [[(x[0], 0), (x[0] + 4, 2), (x[0] + 8, 4), (x[0] + 4, 2)]],
]


def c_degenerate(seed, tier):
    rnd = random.Random(seed * 31 + 11)
    jobs = []
    for i in range(60 if tier == 'quick' else 2000):
        case = some_case(rnd, True)
        op, f = rnd.randrange(4), R.random_fills(rnd)
        jobs.append(case_job('junk %d %s' % (i % len(JUNK), f), case,
                             H.h_degenerate(case, JUNK[i % len(JUNK)], op, f,
                                            rnd.random() < 0.7),
                             max_paths=15))
    return jobs


def c_hot(seed, tier):
    rnd = random.Random(seed * 31 + 23)
    jobs = []
    for i in range(60 if tier == 'quick' else 2500):
        case = some_case(rnd, True)
        jobs.append(case_job('hot pixels', case, H.h_hot_pixels(case),
                             max_paths=15))
    slanted = []
    for i in range(100 if tier == 'quick' else 4000):
        case = K.twist(R.tangle(rnd, rnd.choice(['general', 'tiny', 'tiny']),
                                small=i % 2), rnd)
        slanted.append(case_job('hot pixels', case, H.h_hot_pixels(case),
                                max_paths=6, flips=8))
    return R.interleave(jobs, slanted)


def c_again(seed, tier):
    rnd = random.Random(seed * 31 + 26)
    jobs = []
    for i in range(70 if tier == 'quick' else 3000):
        case = some_case(rnd)
        op, f = rnd.randrange(4), R.random_fills(rnd)
        kind = rnd.randrange(2)
        ops = (1, 3) if kind else (1, 2, 3)
        fill = rnd.choice([0, 1])
        jobs.append(case_job('again %d %s' % (op, f), case, H.h_again(
                case, op, f, (rnd.choice(ops), kind, (fill, fill))),
                max_paths=15))
    return jobs


def c_swap(seed, tier):
    rnd = random.Random(seed * 31 + 29)
    jobs = []
    for i in range(70 if tier == 'quick' else 3000):
        case = some_case(rnd)
        op, f = rnd.choice((0, 1, 3)), R.random_fills(rnd)
        jobs.append(case_job('swap %d %s' % (op, f), case,
                             H.h_swap(case, op, f), max_paths=15))
    return jobs
