"""Jobs of the properties about results of the operations (C01-C09, ...)."""
import random

from . import cases as K
from . import engine as E
from . import geom as G

I, U, D, X = range(4)
EO, NZ, PO, NE = range(4)

RECTILINEAR = ['square', 'wide', 'L', 'U', 'T', 'plus', 'stairs', 'comb',
               'rcomb', 'S', 'pinch', 'selfoverlap', 'spike', 'dup', 'frame',
               'frame2', 'nested', 'touching', 'checker', 'twoholes',
               'touchholes', 'edgehole', 'bars', 'hbars', 'double', 'overlap']
DIAGONAL = ['diamond', 'triangle', 'rtriangle', 'down', 'hexagon', 'octagon',
            'arrow', 'bowtie', 'hourglass', 'zigzag', 'saw', 'parallelogram',
            'diamondframe', 'triforce', 'hexring', 'loop8']
STEEP = sorted(K.STEEP)
SELF = ['bowtie', 'hourglass', 'loop8', 'double', 'overlap', 'frame2',
        'selfoverlap', 'touchholes', 'checker', 'spike', 'pinch',
        'diamondframe', 'hexring']


def ops_job(case, ops, wanted=('region',), reverse=False, max_paths=60,
            closed=True, weight=1):
    return dict(func='ops', case=case, ops=ops, wanted=set(wanted),
                reverse=reverse, max_paths=max_paths, closed=closed,
                weight=weight, name='%s %s' % (
                    case['name'], ' '.join('%s(%s,%s)' % (
                        G.OPS[o], G.FILLS[a], G.FILLS[b])
                        for o, a, b in ops)))


def random_fills(rnd, extra=0.4):
    if rnd.random() > extra:
        return rnd.choice([(EO, EO), (NZ, NZ), (EO, EO), (NZ, EO), (EO, NZ)])
    return rnd.randrange(4), rnd.randrange(4)


def random_pair(rnd):
    r = rnd.random()
    pool = (RECTILINEAR if r < 0.45 else DIAGONAL if r < 0.75
            else RECTILINEAR + DIAGONAL if r < 0.93
            else STEEP + DIAGONAL[:6])
    return rnd.choice(pool), rnd.choice(pool)


def random_rects(rnd, lo=3, hi=6, nl=None):
    """Template of rectangles on symbolic lines."""
    n = rnd.randint(lo, hi)
    nx = nl or rnd.randint(3, 6)
    ny = nl or rnd.randint(3, 6)
    rects = []
    for _ in range(n):
        a, c = sorted(rnd.sample(range(nx), 2))
        b, d = sorted(rnd.sample(range(ny), 2))
        rects.append((a, b, c, d, rnd.randrange(2), rnd.random() < 0.4))
    if len({r[4] for r in rects}) == 1:
        rects[0] = rects[0][:4] + (1 - rects[0][4],) + rects[0][5:]
    name = 'rects:%d:%d:%s' % (nx, ny, ','.join(
            '%d.%d.%d.%d%s%s' % (r[:4] + ('sc'[r[4]], '-' if r[5] else ''))
            for r in rects))
    return K.rects_on_lines(name, rects, nx, ny)


def random_cells(rnd, n=3):
    cells = []
    for c in range(n):
        for r in range(n):
            if rnd.random() < 0.62:
                cells.append((c, r, rnd.randrange(2), rnd.random() < 0.3))
    if not cells:
        cells = [(0, 0, 0, False)]
    name = 'cells:%d:%s' % (n, ','.join('%d.%d%s%s' % (
            c, r, 'sc'[k], '-' if w else '') for c, r, k, w in cells))
    return K.grid_case(name, cells, n)


def random_shape_pair(rnd):
    a, b = random_pair(rnd)
    return K.shapes_pair(a, b, reverse=rnd.random() < 0.3,
                         size=rnd.choice([1, 1, 1, 120]))


def random_multi(rnd):
    """Two to four lattice shapes at fixed places and a moving one."""
    r = rnd.random()
    pool = RECTILINEAR if r < 0.5 else DIAGONAL if r < 0.85 else (
            RECTILINEAR + DIAGONAL)
    parts = []
    for _ in range(rnd.randint(1, 3)):
        parts.append((rnd.choice(pool), 2 * rnd.randint(-3, 3),
                      2 * rnd.randint(-3, 3), rnd.randrange(2),
                      rnd.random() < 0.3))
    return K.shapes_many(parts, (rnd.choice(pool), rnd.randrange(2),
                                 rnd.random() < 0.3))


def tangle(rnd, kind=None, flips=4, small=False):
    """Self-crossing rings drawn at random, their lines or lengths symbols."""
    kind = kind or rnd.choice(['lines', 'lines', 'meeting', 'lengths'])
    if kind == 'nested':
        walks = K.nested_walks(rnd, rnd.choice([2, 3] if small
                                               else [3, 4, 4, 5]),
                               4 if small else 8)
        return K.walks_case(walks, rnd.random() < 0.8, flips)
    k = rnd.choice([4, 4, 5, 6, 8])
    m = rnd.choice([1, 2, 2, 3, 3, 4])
    n = rnd.choice([4, 6, 8, 12, 16])
    if kind == 'lengths':
        k, m, n = rnd.choice([3, 4, 5]), rnd.choice([1, 2, 2]), rnd.choice(
                [4, 6, 8])
        walk = K.oct_walk
    elif kind == 'general':
        k, m, n = rnd.choice([60, 100, 300]), rnd.randint(1, 3), rnd.choice(
                [4, 6, 8])
        walk = K.tiny_ring
    elif kind == 'tiny':
        k, m, n = rnd.choice([4, 6, 9, 14]), rnd.randint(1, 4), rnd.choice(
                [5, 8, 12])
        walk = K.tiny_ring
    elif kind == 'octagonal':
        k, m, n = rnd.choice([4, 6, 8]), rnd.randint(2, 4), rnd.choice(
                [6, 10, 14])
        walk = K.oct_walk
    else:
        walk = K.rect_walk
    if small:
        k, m, n = min(k, 5), min(m, 2), min(n, 8)
    walks = [(walk(rnd, k, rnd.randint(3, n)), rnd.randrange(2))
             for _ in range(m)]
    if kind == 'lengths':
        return K.oct_case(walks, flips=flips)
    if kind == 'octagonal':
        return K.shifted_case([([(2 * a, 2 * b) for a, b in r], q)
                               for r, q in walks], 1, 2 * k, True, flips, 2)
    if kind in ('general', 'tiny'):
        return K.shifted_case(walks, 1, k, False, flips)
    return K.walks_case(walks, kind == 'lines', flips)


def tangle_jobs(rnd, n, operation, wanted=('region',), kinds=(
        'lines', 'lines', 'lines', 'meeting', 'meeting', 'octagonal',
        'octagonal', 'lengths', 'general', 'nested'), paths=3, **more):
    """Every kind in turn; operation: function giving (op, fill, fill)."""
    jobs = []
    for i in range(n):
        kind = kinds[i % len(kinds)]
        w = set(wanted)
        if kind in ('general', 'tiny') and 'validity' in w:
            w.discard('validity')
        jobs.append(ops_job(K.twist(tangle(rnd, kind), rnd),
                            [operation()], w, max_paths=paths, **more))
    return jobs


def drawn_jobs(rnd, n, wanted, op=None, kinds=('rect', 'oct'), paths=2,
               every=False, reshaped=False):
    """Kept tangles with their operations and fills, n of each kind."""
    lists = []
    for kind in kinds:
        some = K.drawn(kind, op)
        some = some if len(some) <= n else rnd.sample(some, n)
        rnd.shuffle(some)
        jobs = []
        for o, f, walks in some:
            case = K.drawn_case(kind, walks)
            closed = True
            if reshaped:
                case = reshape(case, rnd, f)
                closed = False
            elif rnd.random() < 0.5:
                case = K.twist(case, rnd)
            ops = [(o,) + f]
            if every:
                ops += [(q,) + random_fills(rnd) for q in range(4) if q != o]
            jobs.append(ops_job(case, ops, wanted, max_paths=paths,
                                closed=closed))
        lists.append(jobs)
    return interleave(*lists)


def early(jobs):
    """For interleave: spread over the first half."""
    return jobs + [None] * len(jobs)


def interleave(*lists):
    """The jobs of all lists, each spread evenly."""
    keyed = []
    for k, jobs in enumerate(lists):
        for i, j in enumerate(jobs):
            keyed.append(((i + 0.5) / len(jobs), k, i, j))
    return [t[3] for t in sorted(keyed, key=lambda t: t[:3])
            if t[3] is not None]


def mixed_case(rnd):
    return K.twist(straight_case(rnd), rnd)


def straight_case(rnd):
    r = rnd.random()
    if r < 0.35:
        return random_rects(rnd)
    if r < 0.45:
        return random_cells(rnd, rnd.choice([2, 3, 3]))
    if r < 0.8:
        return random_shape_pair(rnd)
    return random_multi(rnd)


# pairs worth looking at on every run
CORE = [('L', 'U'), ('square', 'diamond'), ('frame', 'square'),
        ('plus', 'comb'), ('touchholes', 'square'), ('bowtie', 'square'),
        ('triangle', 'down'), ('nested', 'L'), ('star', 'square'),
        ('checker', 'square'), ('double', 'overlap'), ('zigzag', 'hexagon'),
        ('U', 'rcomb'), ('triforce', 'diamond'), ('hexring', 'square'),
        ('kite', 'triangle')]


def region_jobs(op, rnd, n, quick=True):
    jobs = []
    # broad before deep
    some = (lambda k: max(k // 4, 6)) if quick else (lambda k: k)
    for cw in ((False, False), (True, False)):
        f = random_fills(rnd, 0)
        jobs.append(ops_job(K.two_rects('rects%d%d' % cw, cw), [(op,) + f],
                            ('region', 'validity'), max_paths=some(300), weight=4))
    jobs.append(ops_job(K.two_rects('rects-signed', (False, True)),
                        [(op, PO, NE)], max_paths=some(200), weight=2))
    core = CORE[:]
    rnd.shuffle(core)
    for a, b in core:
        jobs.append(ops_job(K.shapes_pair(a, b),
                            [(op,) + random_fills(rnd, 0.2)],
                            max_paths=some(40), weight=2))
    for _ in range(n):
        case = mixed_case(rnd)
        jobs.append(ops_job(case, [(op,) + random_fills(rnd)], max_paths=some(14)))
    return jobs


CROSSED = ['bowtie', 'bowtie', 'hourglass', 'hourglass', 'loop8', 'overlap',
           'selfoverlap', 'zigzag', 'hexring', 'double']


def wound_jobs(rnd, n, op, wanted=('region',), paths=6):
    """Rings crossing themselves and others around them, the windings of
    either sign, filled by sign."""
    jobs = []
    for i in range(n):
        a, b = rnd.choice(CROSSED), rnd.choice(SELF[:3] + RECTILINEAR[:8]
                                               + DIAGONAL[:6])
        if i % 2:
            a, b = b, a
        case = K.shapes_pair(a, b, reverse=rnd.random() < 0.5,
                             kinds=rnd.choice([(0, 1), (0, 1), (1, 0), (0, 0)
                                               ]))
        f = (rnd.choice([PO, NE]), rnd.choice([PO, NE]))
        if rnd.random() < 0.2:
            f = rnd.choice([(f[0], rnd.randrange(4)),
                            (rnd.randrange(4), f[1])])
        jobs.append(ops_job(K.twist(case, rnd), [(op(),) + f], wanted,
                            max_paths=paths))
    return jobs


def general_jobs(op, rnd, n, wanted=('region',), paths=6):
    jobs = []
    names = sorted(K.GENERAL)
    for _ in range(n):
        a, b = rnd.choice(names), rnd.choice(names)
        case = K.twist(K.general_pair(a, b, flip=rnd.random() < 0.5), rnd)
        jobs.append(ops_job(case, [(op,) + random_fills(rnd, 0.2)], wanted,
                            max_paths=paths, weight=3))
    return jobs


def c_region(op):
    def jobs(seed, tier):
        rnd = random.Random(1000 * op + seed)
        n = 150 if tier == 'quick' else 6000
        out = region_jobs(op, rnd, n, tier == 'quick')
        g = general_jobs(op, rnd, 4 if tier == 'quick' else 60)
        out[16:16] = g
        t = tangle_jobs(rnd, 260 if tier == 'quick' else 12000,
                        lambda: (op,) + random_fills(rnd),
                        ('region', 'validity'))
        kept = drawn_jobs(rnd, 200, ('region', 'validity'), op)
        wound = wound_jobs(rnd, 60 if tier == 'quick' else 2400, lambda: op)
        return interleave(out, t, kept, early(wound))
    return jobs


def c_fills(seed, tier):
    """All fill kinds over overlapping and self crossing inputs."""
    rnd = random.Random(50 + seed)
    jobs = []
    combos = [(a, b) for a in range(4) for b in range(4)]
    rounds = 3 if tier == 'quick' else 40
    for _ in range(rounds):
        rnd.shuffle(combos)
        for a, b in combos:
            r = rnd.random()
            if r < 0.3:
                case = K.shapes_pair(rnd.choice(SELF), rnd.choice(SELF),
                                     reverse=rnd.random() < 0.5)
            elif r < 0.8:
                case = random_rects(rnd, 4, 7)
            else:
                case = random_multi(rnd)
            case = K.twist(case, rnd)
            jobs.append(ops_job(case, [(rnd.randrange(4), a, b)],
                                max_paths=14))
    every = [(o, a, b) for o in range(4) for a, b in combos]
    rnd.shuffle(every)
    turn = iter(every * 1000)
    t = tangle_jobs(rnd, 320 if tier == 'quick' else 12800,
                    lambda: next(turn), ('region', 'validity'))
    kept = drawn_jobs(rnd, 150 if tier == 'quick' else 1000,
                      ('region', 'validity'))
    wound = wound_jobs(rnd, 80 if tier == 'quick' else 3200,
                       lambda: rnd.randrange(4))
    return interleave(jobs, t, kept, early(wound))


def c_validity(seed, tier):
    rnd = random.Random(60 + seed)
    jobs = []
    hard = ['touchholes', 'checker', 'pinch', 'nested', 'twoholes', 'hexring',
            'triforce', 'frame', 'edgehole', 'diamondframe', 'touching',
            'plus', 'comb', 'bowtie', 'spike', 'dup']
    for i in range(100 if tier == 'quick' else 4000):
        if i % 3 == 0:
            case = K.shapes_pair(rnd.choice(hard), rnd.choice(hard),
                                 reverse=rnd.random() < 0.3)
        elif i % 3 == 1:
            case = random_cells(rnd, 3)
        else:
            case = straight_case(rnd)
        case = K.twist(case, rnd)
        jobs.append(ops_job(case, [(rnd.randrange(4),) + random_fills(rnd)],
                            ('validity', 'region'), max_paths=14))
    t = tangle_jobs(rnd, 320 if tier == 'quick' else 12000,
                    lambda: (rnd.randrange(4),) + random_fills(rnd),
                    ('region', 'validity'), kinds=(
                        'lines', 'lines', 'meeting', 'octagonal',
                        'octagonal', 'lengths', 'nested'))
    kept = drawn_jobs(rnd, 150 if tier == 'quick' else 1000,
                      ('region', 'validity'))
    return interleave(jobs, t, kept)


def reshape(case, rnd, fills):
    """The same rings written differently: other first vertices, order of
    rings, repeated and collinear vertices; other directions of any ring of a
    kind under even-odd, of all the rings of a kind under non-zero."""
    sample = case['rings']([0] * len(case['ranges']))
    n = len(sample)
    order = list(range(n))
    rnd.shuffle(order)
    back = [rnd.random() < 0.5 for _ in (0, 1)]
    turns = [{EO: lambda: rnd.random() < 0.5, NZ: lambda: back[k]}.get(
        fills[k], lambda: False)() for _, k in sample]
    plan = {i: dict(shift=rnd.randrange(12), turn=turns[i],
                    double=[rnd.random() < 0.2 for _ in range(40)],
                    middle=[rnd.random() < 0.25 for _ in range(40)],
                    close=rnd.random() < 0.5)
            for i in range(n)}

    def shown(x):
        rings = case['rings'](x)
        out = []
        for i in order:
            pts, kind = rings[i]
            p = plan[i]
            new = []
            k = len(pts)
            for j, (a, b) in enumerate(pts):
                new.append((a, b))
                if p['double'][j % 40]:
                    new.append((a, b))
                c, d = pts[(j + 1) % k]
                if p['middle'][j % 40]:
                    # a vertex of the lattice on the edge, when there is one
                    u, v = between((a, b), (c, d))
                    if u is not None:
                        new.append((u, v))
            s = p['shift'] % len(new)
            new = new[s:] + new[:s]
            if p['turn']:
                new = new[::-1]
            if p['close']:
                new = new + [new[0]]
            out.append((new, kind))
        return out
    return dict(case, shown=shown, name=case['name'] + ' rewritten')


def between(a, b):
    """A lattice point inside an edge, if the difference shows one."""
    def number(v):
        if isinstance(v, int):
            return v
        n = getattr(v, 'n', None)          # a constant proxy
        if n is not None and not any(m for m in n):
            return int(v.v)
        return None
    dx, dy = number(b[0] - a[0]), number(b[1] - a[1])
    if dx is not None and dy is not None:
        if dx % 2 or dy % 2 or not (dx or dy):
            return None, None
        return a[0] + dx // 2, a[1] + dy // 2
    if dx == 0:
        return a[0], a[1] + halfway(b[1] - a[1])
    if dy == 0:
        return a[0] + halfway(b[0] - a[0]), a[1]
    return None, None


def halfway(d):
    return (d > 1) - (d < -1)


def c_rewritten(seed, tier):
    """The result does not depend on how the rings are written down."""
    rnd = random.Random(90 + seed)
    jobs = []
    for i in range(130 if tier == 'quick' else 5000):
        case = mixed_case(rnd)
        f = random_fills(rnd)
        case = reshape(case, rnd, f)
        jobs.append(ops_job(case, [(rnd.randrange(4),) + f],
                            max_paths=12, closed=False))
    t = []
    for i in range(250 if tier == 'quick' else 10000):
        f = random_fills(rnd)
        case = K.twist(tangle(rnd, rnd.choice(
                ['lines', 'lines', 'meeting', 'octagonal', 'lengths'])), rnd)
        t.append(ops_job(reshape(case, rnd, f), [(rnd.randrange(4),) + f],
                         max_paths=3, closed=False))
    kept = drawn_jobs(rnd, 150 if tier == 'quick' else 1000, ('region',),
                      reshaped=True)
    return interleave(jobs, t, kept)


def c_snap(seed, tier):
    """Where the vertices of the results are."""
    rnd = random.Random(280 + seed)
    jobs = []
    for i in range(24 if tier == 'quick' else 400):
        jobs.extend(general_jobs(rnd.randrange(4), rnd, 1,
                                 ('vertices', 'region'), 8))
        case = mixed_case(rnd)
        jobs.append(ops_job(case, [(rnd.randrange(4),) + random_fills(rnd)],
                            ('vertices',), max_paths=20))
    t = tangle_jobs(rnd, 220 if tier == 'quick' else 8000,
                    lambda: (rnd.randrange(4),) + random_fills(rnd),
                    ('vertices', 'region'), kinds=(
                        'general', 'general', 'general', 'octagonal',
                        'lines', 'nested'))
    return interleave(jobs, t)


def c_total(seed, tier):
    """Operations on anything end with a result."""
    rnd = random.Random(240 + seed)
    jobs = []
    for i in range(120 if tier == 'quick' else 4000):
        r = i % 4
        if r == 0:
            case = random_rects(rnd, 5, 9)
        elif r == 1:
            case = random_cells(rnd, rnd.choice([3, 4]))
        elif r == 2:
            case = random_multi(rnd)
        else:
            case = straight_case(rnd)
        case = K.twist(case, rnd)
        ops = [(o,) + random_fills(rnd, 0.7) for o in range(4)]
        jobs.append(ops_job(case, ops, (), max_paths=6))
        if i % 10 == 0:
            jobs.extend(general_jobs(rnd.randrange(4), rnd, 1, (), 6))
    t = tangle_jobs(rnd, 300 if tier == 'quick' else 12000,
                    lambda: (rnd.randrange(4),) + random_fills(rnd), (),
                    kinds=('lines', 'meeting', 'octagonal', 'lengths',
                           'general', 'tiny', 'tiny', 'nested'))
    kept = drawn_jobs(rnd, 100 if tier == 'quick' else 1000, (),
                      kinds=('rect', 'oct', 'tiny'), every=True)
    return front_jobs(()) + interleave(jobs, t, kept)


def front_jobs(wanted):
    """Tangles which were found to end badly before they were repaired (or
    in some other version of the code): their last ring on two symbols."""
    return [ops_job(K.drawn_case('front', walks), [(o,) + f], wanted,
                    max_paths=3)
            for o, f, walks in K.drawn('front')]


def boxed(case, flat=False):
    """The rings of the case, all of them subjects, and a box on symbols."""
    inner = case['rings']
    n = len(case['ranges'])
    # triangles of half a unit of area are not kept by the operations
    u = case.get('unit', 2 if case['name'].startswith(('oct', 'shifted'))
                 else 1)
    # what the box has to reach
    start = case.get('start') or [(a + b) // 2 for a, b in case['ranges']]
    rings = inner(list(start))
    xs = [int(p[0]) for r, _ in rings for p in r]
    ys = [int(p[1]) for r, _ in rings for p in r]
    reach = max(max(abs(a), abs(b)) for a, b in case['ranges']) * u
    lim = min(K.BIG, 2 * (reach + max(map(abs, xs + ys))) // u)

    def all_rings(x):
        a, b, c, d = (v * u for v in x[n:n + 4])
        return ([(r, 0) for r, _ in inner(x[:n])]
                + [([(a, b), (c, b), (c, d), (a, d)], 1)])
    mask = K.S.GE if flat else K.S.GT
    third = [(max(v) - min(v)) // 4 // u for v in (xs, ys)]
    new = dict(case, rings=all_rings, name='box ' + case['name'],
               ranges=case['ranges'] + [(-lim, lim)] * 4,
               base=case['base'] + [K.lt(n, n + 2, mask),
                                    K.lt(n + 1, n + 3, mask)])
    if case.get('start'):
        new['start'] = list(start) + [
            min(xs) // u + third[0], min(ys) // u + third[1],
            max(xs) // u - third[0], max(ys) // u - third[1]]
    return new


SIMPLE = ['tri1', 'tri2', 'quad1', 'dart1', 'penta1', 'flat1', 'step1',
          'thin1']


def halved(name, side, k, flip):
    """A shape without self-crossings and a box one side of which, a symbol,
    passes through it: every new vertex is a rounded crossing."""
    ring = [(a * k, b * k) for a, b in K.GENERAL[name][0]]
    if flip:
        ring = [(b, a) for a, b in ring]
    far = 400 * k

    def rings(x):
        s = [-far, -far, far, far]
        s[side] = x[0]
        a, b, c, d = s
        return [(ring, 0), ([(a, b), (c, b), (c, d), (a, d)], 1)]
    return dict(name='half:%s:%d:%d:%d' % (name, side, k, flip), exact=False,
                ranges=[(-10, 110 * k)], base=[], rings=rings)


def c_clip(seed, tier):
    """Rings clipped by a box."""
    rnd = random.Random(290 + seed)
    jobs, t = [], []

    def job(case, paths, validity=True):
        op = (I, rnd.choice([EO, EO, NZ, NZ, PO, NE]), NZ)
        w = ('region', 'validity') if validity else ('region',)
        j = ops_job(K.twist(boxed(case, rnd.random() < 0.2), rnd), [op, op],
                    w, max_paths=paths, closed=rnd.random() < 0.7)
        j['impls'] = 'clip',
        return j
    quick = tier == 'quick'
    names = sorted(K.GENERAL)
    for i in range(120 if quick else 4000):
        r = i % 6
        if r == 0:
            case = K.two_rects('rects%d' % i, (rnd.random() < 0.5,
                                               rnd.random() < 0.5))
        elif r == 1:
            case = random_rects(rnd, 2, 4)
        elif r in (2, 3):
            case = random_shape_pair(rnd)
        elif r == 4:
            case = random_multi(rnd)
        else:
            case = K.general_pair(rnd.choice(names), rnd.choice(names),
                                  flip=rnd.random() < 0.5)
        jobs.append(job(case, 20 if r != 5 else 8, r != 5))
    halves = []
    for i in range(20 if quick else 400):
        op = (I, rnd.choice([EO, NZ]), NZ)
        j = ops_job(K.twist(halved(rnd.choice(SIMPLE), i % 4,
                                   rnd.choice([1, 1, 3, 40]),
                                   rnd.random() < 0.5), rnd), [op, op],
                    ('region', 'vertices'), max_paths=40 if not quick else 12)
        j['impls'] = 'clip',
        halves.append(j)
    kinds = ['lines', 'meeting', 'octagonal', 'lengths', 'nested', 'lines',
             'meeting', 'octagonal', 'lengths', 'nested', 'general']
    for i in range(200 if quick else 8000):
        kind = kinds[i % len(kinds)]
        t.append(job(tangle(rnd, kind, small=rnd.random() < 0.5), 6,
                     kind != 'general'))
    return interleave(jobs, t, halves)


def interrupted(case, kind, first, least, most):
    """The case and an interruption, at a check between least and most."""
    inner = case['rings']
    n = len(case['ranges'])
    o, a, b = first

    def rings(x):
        return inner(x[:n]) + [([(x[n], kind)], 0), ([(o, 4 * a + b)], 0)]
    new = dict(case, rings=rings, name='%s interrupted:%d' % (case['name'],
                                                              kind),
               ranges=case['ranges'] + [(least, most)])
    if case.get('start'):
        new['start'] = list(case['start']) + [least]
    return new


def c_interrupt(seed, tier):
    """Interruptions of operations and of adding."""
    rnd = random.Random(300 + seed)
    plain, t = [], []

    def op():
        return (rnd.randrange(4),) + random_fills(rnd)

    def job(case, paths):
        least = rnd.choice([0, 0, 1, 2, 3, 4, 6, 9])
        case = interrupted(K.twist(case, rnd), rnd.choice([0, 0, 0, 1, 2]),
                           op(), least, least + 3)
        j = ops_job(case, [op()], ('region', 'validity'), max_paths=paths,
                    closed=rnd.random() < 0.7)
        j['impls'] = 'interrupted',
        return j
    quick = tier == 'quick'
    for i in range(110 if quick else 4000):
        plain.append(job(straight_case(rnd), 14))
    kinds = ['lines', 'meeting', 'octagonal', 'nested', 'lengths']
    for i in range(150 if quick else 6000):
        t.append(job(tangle(rnd, kinds[i % 5]), 5))
    return interleave(plain, t)


def run_ops_job(job, deadline, seed):
    return E.job_ops(job['case'], job['ops'], job['wanted'],
                     impls=job.get('impls'),
                     reverse=job['reverse'], max_paths=job['max_paths'],
                     deadline=deadline, seed=seed, closed=job['closed'])
