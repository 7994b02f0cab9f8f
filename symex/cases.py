"""Families of symbolic inputs.

A case is a dict: name, ranges (one (lo, hi) per integer symbol), base (trail
atoms restricting the symbols) and rings: a function from the list of symbols
(proxies or plain ints) to [(vertices, polygon kind)].  Cases are looked up by
name in worker processes.
"""
from . import explore as X
from . import poly as P
from . import sym as S

SUBJECT, CLIP = 0, 1
BIG = 2 ** 20


def lt(i, j, mask=S.GT):
    """v[j] - v[i] > 0 (or another mask)."""
    return X.sign_constraint(P.sub(P.var(j), P.var(i)), mask)


def positive(i, mask=S.GT):
    return X.sign_constraint(P.var(i), mask)


def rect(a, b, c, d, cw=False, start=0):
    pts = [(a, b), (c, b), (c, d), (a, d)]
    if cw:
        pts = pts[::-1]
    return pts[start:] + pts[:start]


def move(pts, dx, dy):
    return [(x + dx, y + dy) for x, y in pts]


def scale(pts, k):
    return [(x * k, y * k) for x, y in pts]


# Lattice shapes: edges of slopes 0, inf, +-1 (and +-2, +-1/2 where noted).
SHAPES = {
    'square': [(0, 0), (4, 0), (4, 4), (0, 4)],
    'wide': [(0, 0), (6, 0), (6, 2), (0, 2)],
    'L': [(0, 0), (5, 0), (5, 2), (2, 2), (2, 5), (0, 5)],
    'U': [(0, 0), (6, 0), (6, 5), (4, 5), (4, 2), (2, 2), (2, 5), (0, 5)],
    'T': [(0, 4), (2, 4), (2, 0), (4, 0), (4, 4), (6, 4), (6, 6), (0, 6)],
    'plus': [(2, 0), (4, 0), (4, 2), (6, 2), (6, 4), (4, 4), (4, 6), (2, 6),
             (2, 4), (0, 4), (0, 2), (2, 2)],
    'stairs': [(0, 0), (6, 0), (6, 2), (4, 2), (4, 4), (2, 4), (2, 6),
               (0, 6)],
    'comb': [(0, 0), (10, 0), (10, 6), (8, 6), (8, 2), (6, 2), (6, 6), (4, 6),
             (4, 2), (2, 2), (2, 6), (0, 6)],
    'rcomb': [(0, 0), (2, 0), (2, 4), (4, 4), (4, 0), (6, 0), (6, 4), (8, 4),
              (8, 0), (10, 0), (10, 6), (0, 6)],
    'S': [(0, 0), (6, 0), (6, 4), (2, 4), (2, 6), (6, 6), (6, 8), (0, 8),
          (0, 2), (4, 2), (4, 1), (0, 1)],
    'diamond': [(0, -4), (4, 0), (0, 4), (-4, 0)],
    'triangle': [(0, 0), (8, 0), (4, 4)],
    'rtriangle': [(0, 0), (6, 0), (0, 6)],
    'down': [(0, 4), (4, 0), (8, 4)],
    'hexagon': [(2, 0), (6, 0), (8, 2), (6, 4), (2, 4), (0, 2)],
    'octagon': [(2, 0), (4, 0), (6, 2), (6, 4), (4, 6), (2, 6), (0, 4),
                (0, 2)],
    'arrow': [(0, 2), (4, 2), (4, 0), (8, 4), (4, 8), (4, 6), (0, 6)],
    'bowtie': [(0, 0), (4, 4), (4, 0), (0, 4)],
    'hourglass': [(0, 0), (4, 0), (0, 4), (4, 4)],
    'zigzag': [(0, 0), (2, 2), (4, 0), (6, 2), (8, 0), (8, 4), (6, 6), (4, 4),
               (2, 6), (0, 4)],
    'saw': [(0, 0), (8, 0), (8, 4), (6, 2), (4, 4), (2, 2), (0, 4)],
    'parallelogram': [(0, 0), (4, 0), (8, 4), (4, 4)],
    'spike': [(0, 0), (4, 0), (4, 4), (4, 8), (4, 4), (0, 4)],
    'selfoverlap': [(0, 0), (6, 0), (6, 4), (2, 4), (2, 2), (8, 2), (8, 6),
                    (0, 6)],
    'pinch': [(0, 0), (4, 0), (4, 4), (8, 4), (8, 8), (4, 8), (4, 4), (0, 4)],
    'star': [(0, 0), (4, 2), (8, 0), (6, 4), (8, 8), (4, 6), (0, 8), (2, 4)],
    'kite': [(2, 0), (4, 4), (2, 6), (0, 4)],
    'sliver': [(0, 0), (8, 4), (4, 4)],
    'zed': [(0, 0), (8, 0), (4, 2), (8, 4), (0, 4), (4, 2)],
    'loop8': [(0, 0), (8, 8), (0, 8), (8, 0)],
    'trapezoid': [(0, 0), (8, 0), (6, 4), (2, 4)],
    'dup': [(0, 0), (2, 0), (2, 0), (4, 0), (4, 4), (4, 4), (2, 4), (0, 4)],
}
# shapes made of several rings (vertices, orientation as listed)
COMPOUNDS = {
    'frame': [rect(0, 0, 8, 8), rect(2, 2, 6, 6, cw=True)],
    'frame2': [rect(0, 0, 8, 8), rect(2, 2, 6, 6)],
    'nested': [rect(0, 0, 12, 12), rect(2, 2, 10, 10, cw=True),
               rect(4, 4, 8, 8)],
    'diamondframe': [rect(0, 0, 8, 8), [(4, 0), (8, 4), (4, 8), (0, 4)]],
    'touching': [rect(0, 0, 4, 4), rect(4, 4, 8, 8)],
    'checker': [rect(0, 0, 2, 2), rect(2, 2, 4, 4), rect(4, 0, 6, 2),
                rect(0, 4, 2, 6), rect(4, 4, 6, 6)],
    'twoholes': [rect(0, 0, 10, 6), rect(2, 2, 4, 4, cw=True),
                 rect(6, 2, 8, 4, cw=True)],
    'touchholes': [rect(0, 0, 8, 8), rect(2, 2, 4, 4, cw=True),
                   rect(4, 4, 6, 6, cw=True)],
    'edgehole': [rect(0, 0, 8, 8), rect(2, 0, 6, 4, cw=True)],
    'bars': [rect(0, 0, 2, 8), rect(4, 0, 6, 8), rect(8, 0, 10, 8)],
    'hbars': [rect(0, 0, 8, 2), rect(0, 4, 8, 6), rect(0, 8, 8, 10)],
    'double': [rect(0, 0, 6, 6), rect(0, 0, 6, 6)],
    'overlap': [rect(0, 0, 6, 6), rect(2, 2, 8, 8)],
    'triforce': [[(0, 0), (8, 0), (4, 4)], [(8, 0), (16, 0), (12, 4)],
                 [(4, 4), (12, 4), (8, 8)]],
    'hexring': [[(0, 0), (4, 0), (2, 2)], [(4, 0), (6, 2), (2, 2)],
                [(6, 2), (4, 4), (2, 2)], [(4, 4), (0, 4), (2, 2)]],
}
for _k, _v in SHAPES.items():
    COMPOUNDS.setdefault(_k, [_v])
STEEP = {'star', 'kite', 'sliver', 'zed', 'trapezoid'}   # slopes 2, 1/2


def two_rects(name, cw=(False, False), kinds=(SUBJECT, CLIP)):
    def rings(x):
        return [(rect(*x[:4], cw=cw[0]), kinds[0]),
                (rect(*x[4:8], cw=cw[1]), kinds[1])]
    return dict(name=name, ranges=[(-BIG, BIG)] * 8,
                base=[lt(0, 2), lt(1, 3), lt(4, 6), lt(5, 7)], rings=rings)


def shapes_pair(a, b, span=None, unit=None, kinds=(SUBJECT, CLIP),
                reverse=False, size=1):
    """Compound a fixed, compound b translated by two symbols; all the
    coordinates multiples of a unit making every intersection integral."""
    steep = bool({a, b} & STEEP)
    u = unit or (60 if steep else 2)
    k = u * (40 if steep else 500) * size
    A = [scale(r, k) for r in COMPOUNDS[a]]
    B = [scale(r, k) for r in COMPOUNDS[b]]
    if reverse:
        B = [r[::-1] for r in B]
    span = span or 20 * k // u

    def rings(x):
        dx, dy = x[0] * u, x[1] * u
        return ([(r, kinds[0]) for r in A]
                + [(move(r, dx, dy), kinds[1]) for r in B])
    return dict(name='pair:%s:%s:%s:%s' % (a, b, int(reverse), size),
                ranges=[(-span, span)] * 2, base=[], rings=rings, unit=u)


def shapes_many(parts, mover, size=1):
    """Compounds at fixed lattice places, parts: [(name, dx, dy, kind,
    reversed)], and one moved by two symbols: (name, kind, reversed)."""
    steep = bool({p[0] for p in parts + [mover]} & STEEP)
    u = 60 if steep else 2
    k = u * (40 if steep else 500) * size

    def turn(r, back):
        return r[::-1] if back else r
    fixed = [(move(scale(turn(r, back), k), dx * k, dy * k), kind)
             for n, dx, dy, kind, back in parts for r in COMPOUNDS[n]]
    moving = [(scale(turn(r, mover[2]), k), mover[1])
              for r in COMPOUNDS[mover[0]]]
    span = 20 * k // u

    def rings(x):
        dx, dy = x[0] * u, x[1] * u
        return fixed + [(move(r, dx, dy), kind) for r, kind in moving]
    return dict(name='many:%s:%s' % (','.join(
                    '%s%+d%+d%s%s' % (n, dx, dy, 'sc'[q], '-' if b else '')
                    for n, dx, dy, q, b in parts),
                    '%s%s%s' % (mover[0], 'sc'[mover[1]],
                                '-' if mover[2] else '')),
                ranges=[(-span, span)] * 2, base=[], rings=rings, unit=u)


def grid_case(name, cells, n=3, strict=True):
    """Cells of an n x n grid with symbolic lines; cells: [(col, row, kind,
    reversed)].  Neighbouring lines may coincide unless strict."""
    m = n + 1

    def rings(x):
        xs, ys = x[:m], x[m:2 * m]
        out = []
        for c, r, kind, cw in cells:
            out.append((rect(xs[c], ys[r], xs[c + 1], ys[r + 1], cw=cw),
                        kind))
        return out
    mask = S.GT if strict else S.GE
    base = [lt(i, i + 1, mask) for i in range(m - 1)]
    base += [lt(m + i, m + i + 1, mask) for i in range(m - 1)]
    return dict(name=name, ranges=[(-BIG, BIG)] * (2 * m), base=base,
                rings=rings)


def rects_on_lines(name, rects, nx, ny):
    """Rectangles spanned by weakly ordered symbolic lines:
    rects: [(x1, y1, x2, y2 line indices, kind, cw)]."""
    def rings(x):
        xs, ys = x[:nx], x[nx:nx + ny]
        return [(rect(xs[a], ys[b], xs[c], ys[d], cw=cw), kind)
                for a, b, c, d, kind, cw in rects]
    base = [lt(i, i + 1) for i in range(nx - 1)]
    base += [lt(nx + i, nx + i + 1) for i in range(ny - 1)]
    return dict(name=name, ranges=[(-BIG, BIG)] * (nx + ny), base=base,
                rings=rings)


# General slopes: edges in no special position; the vertices of the results
# get snapped to the grid.
GENERAL = {
    'tri1': [[(0, 0), (97, 31), (40, 83)]],
    'tri2': [[(5, 3), (60, 17), (22, 71)]],
    'quad1': [[(0, 10), (70, 0), (90, 60), (20, 75)]],
    'dart1': [[(0, 0), (50, 20), (100, 5), (48, 90)]],
    'bow1': [[(0, 0), (80, 65), (85, 3), (4, 71)]],
    'thin1': [[(0, 0), (100, 7), (101, 12)]],
    'hole1': [[(0, 0), (100, 8), (93, 96), (7, 88)],
              [(30, 30), (33, 64), (61, 66), (70, 35)]],
    'penta1': [[(50, 0), (98, 35), (79, 91), (21, 91), (2, 35)]],
    'star1': [[(50, 0), (79, 91), (2, 35), (98, 35), (21, 91)]],
    'flat1': [[(0, 0), (90, 0), (73, 41), (11, 47)]],
    'step1': [[(0, 0), (60, 0), (60, 33), (95, 40), (95, 80), (0, 80)]],
    'two1': [[(0, 0), (41, 13), (17, 37)], [(45, 20), (90, 44), (51, 80)]],
}


def general_pair(a, b, span=120, kinds=(SUBJECT, CLIP), k=1, flip=False):
    A = [scale(r, k) for r in GENERAL[a]]
    B = [scale(r, k) for r in GENERAL[b]]
    if flip:
        B = [[(y, x) for x, y in r] for r in B]

    def rings(x):
        return ([(r, kinds[0]) for r in A]
                + [(move(r, x[0], x[1]), kinds[1]) for r in B])
    return dict(name='general:%s:%s:%d:%d' % (a, b, k, flip), exact=False,
                ranges=[(-span * k, span * k)] * 2, base=[], rings=rings)


def twist(case, rnd):
    """The case turned, mirrored and moved away from the origin."""
    t = rnd.choice(['', '', 'x', 'y', 'd', 'xy', 'xd'])
    ox = oy = 0
    if rnd.random() < 0.3:
        far = rnd.choice([1000, 2 ** 16 + 1, 2 ** 22, 2 ** 25 + 3])
        ox, oy = rnd.choice([-far, 0, far]), rnd.choice([-far, 0, far])
        if not ox and not oy:
            ox = far
    if not (t or ox or oy):
        return case
    inner = case['rings']

    def one(p):
        x, y = p
        if 'x' in t:
            x = -x
        if 'y' in t:
            y = -y
        if 'd' in t:
            x, y = y, x
        return x + ox, y + oy

    def rings(x):
        return [([one(p) for p in r], k) for r, k in inner(x)]
    return dict(case, rings=rings, name='%s ~%s%+d%+d' % (case['name'], t,
                                                          ox, oy))


# -- tangles: self-crossing rings with every length symbolic -------------------
def rect_walk(rnd, k, n):
    """Closed rectilinear walk over a k x k lattice."""
    out = [(rnd.randrange(k), rnd.randrange(k))]
    for i in range(n):
        a, b = out[-1]
        if i % 2:
            a = rnd.randrange(k)
        else:
            b = rnd.randrange(k)
        if (a, b) != out[-1] or rnd.random() < 0.1:
            out.append((a, b))
    if out[-1][0] != out[0][0] and out[-1][1] != out[0][1]:
        out.append((out[-1][0], out[0][1]))
    if out[-1] == out[0] and len(out) > 1:
        out.pop()
    return out


def oct_walk(rnd, k, n):
    """Closed walk over a k x k lattice along axes and diagonals."""
    while True:
        out = [(rnd.randrange(k), rnd.randrange(k))]
        for _ in range(n):
            for _ in range(20):
                dx, dy = rnd.choice([(1, 0), (0, 1), (1, 1), (1, -1)])
                s = rnd.choice([-1, 1]) * rnd.randint(1, k)
                a, b = out[-1][0] + dx * s, out[-1][1] + dy * s
                if 0 <= a < k and 0 <= b < k:
                    out.append((a, b))
                    break
        a, b = out[-1][0] - out[0][0], out[-1][1] - out[0][1]
        if not a and not b:
            out.pop()
            if len(out) > 1:
                return out
        elif not a or not b or abs(a) == abs(b):
            return out


def tiny_ring(rnd, k, n):
    return [(rnd.randrange(k), rnd.randrange(k)) for _ in range(n)]


def nested_walks(rnd, depth=4, most=8):
    """Boxes within boxes, side by side now and then."""
    out = []
    main = rnd.randrange(2)

    def place(x0, x1, y0, y1, level):
        if x1 - x0 < 2 or y1 - y0 < 2 or len(out) >= most:
            return
        ring = [(x0, y0), (x1, y0), (x1, y1), (x0, y1)]
        if rnd.random() < 0.25:
            # without a corner
            a, b = rnd.randint(x0 + 1, x1 - 1), rnd.randint(y0 + 1, y1 - 1)
            ring[2:3] = [(x1, b), (a, b), (a, y1)]
        t = rnd.randrange(len(ring))
        ring = ring[t:] + ring[:t]
        if rnd.random() < 0.5:
            ring.reverse()
        out.append((ring, main if rnd.random() < 0.85 else 1 - main))
        if level == depth:
            return
        gaps = [0 if rnd.random() < 0.08 else 1 for _ in range(4)]
        x0, x1, y0, y1 = (x0 + gaps[0], x1 - gaps[1], y0 + gaps[2],
                          y1 - gaps[3])
        r = rnd.random()
        if r < 0.2 and x1 - x0 > 5:
            m = (x0 + x1) // 2
            place(x0, m, y0, y1, level + 1)
            place(m + rnd.randrange(2), x1, y0, y1, level + 1)
        elif r < 0.4 and y1 - y0 > 5:
            m = (y0 + y1) // 2
            place(x0, x1, y0, m, level + 1)
            place(x0, x1, m + rnd.randrange(2), y1, level + 1)
        else:
            place(x0, x1, y0, y1, level + 1)
    size = 2 * depth + rnd.randint(2, 6)
    place(0, size, 0, size, 1)
    rnd.shuffle(out)
    return out


def text_rings(walks):
    return ';'.join('%s%s' % ('sc'[q], ','.join('%d.%d' % p for p in r))
                    for r, q in walks)


def walks_case(walks, strict=True, flips=None):
    """Rectilinear walks [(vertices, kind)] whose lines are symbols in the
    order of the template (neighbouring lines may meet unless strict)."""
    xs = sorted({a for r, _ in walks for a, _ in r})
    ys = sorted({b for r, _ in walks for _, b in r})
    cx = {a: i for i, a in enumerate(xs)}
    cy = {b: i + len(xs) for i, b in enumerate(ys)}

    def rings(x):
        return [([(x[cx[a]], x[cy[b]]) for a, b in r], q) for r, q in walks]
    mask = S.GT if strict else S.GE
    n = len(xs) + len(ys)
    base = [lt(i, i + 1, mask) for i in range(n - 1) if i != len(xs) - 1]
    return dict(name='walks:%d:%s' % (strict, text_rings(walks)),
                ranges=[(-BIG, BIG)] * n, base=base, rings=rings,
                start=[100 * a for a in xs] + [100 * b for b in ys],
                flips=flips)


def oct_case(walks, unit=64, flips=None):
    """Walks [(vertices, kind)] along axes and diagonals: the directions of
    the edges are kept, their lengths are symbols.  Coordinates are even, so
    that crossings are integral."""
    ranges, base, start, plans = [], [], [], []

    def symbol(v, lo):
        ranges.append((lo, BIG))
        start.append(v * unit)
        return P.var(len(ranges) - 1)
    for r, q in walks:
        n = len(r)
        edges = []
        for i in range(n):
            dx = r[(i + 1) % n][0] - r[i][0]
            dy = r[(i + 1) % n][1] - r[i][1]
            length = max(abs(dx), abs(dy))
            edges.append(((dx > 0) - (dx < 0), (dy > 0) - (dy < 0), length))
        pair = None
        for i in range(n):
            for j in range(i):
                det = (edges[i][0] * edges[j][1] - edges[j][0] * edges[i][1])
                if abs(det) == 1:
                    pair = j, i, det
        lengths = {}
        free = [i for i in range(n) if edges[i][2]
                and (pair is None or i not in pair[:2])]
        if pair is None:
            # one direction only, or diagonals only: one length for all
            u = symbol(1, 1)
            for i in free:
                lengths[i] = P.scale(u, edges[i][2])
        else:
            for i in free:
                lengths[i] = symbol(edges[i][2], 1)
            sx = sy = P.const(0)
            for i in free:
                sx = P.add(sx, P.scale(lengths[i], edges[i][0]))
                sy = P.add(sy, P.scale(lengths[i], edges[i][1]))
            a, b, det = pair
            # la * da + lb * db = -(sx, sy), det = db x da
            (ax, ay, _), (bx, by, _) = edges[a], edges[b]
            lengths[a] = P.scale(P.sub(P.scale(sx, by), P.scale(sy, bx)),
                                 -1 * (1 if ax * by - ay * bx > 0 else -1))
            lengths[b] = P.scale(P.sub(P.scale(sy, ax), P.scale(sx, ay)),
                                 -1 * (1 if ax * by - ay * bx > 0 else -1))
            for i in (a, b):
                base.append(X.sign_constraint(lengths[i], S.GT))
        x0 = symbol(r[0][0], -BIG)
        y0 = symbol(r[0][1], -BIG)
        plans.append((x0, y0, [(edges[i][0], edges[i][1], lengths.get(i))
                               for i in range(n)], q))

    def value(p, x):
        t = 0
        for m, c in p.items():
            t = t + (x[m[0]] * int(c) if m else int(c))
        return t

    def rings(x):
        out = []
        for x0, y0, edges, q in plans:
            a, b = 2 * value(x0, x), 2 * value(y0, x)
            pts = []
            for dx, dy, length in edges:
                pts.append((a, b))
                if length is not None:
                    m = 2 * value(length, x)
                    a, b = a + m * dx, b + m * dy
            out.append((pts, q))
        return out
    return dict(name='oct:%s' % text_rings(walks), ranges=ranges, base=base,
                rings=rings, start=start, flips=flips)


def shifted_case(walks, k=1, span=40, exact=False, flips=None, unit=1):
    """Given rings, the last of which is moved by two symbols."""
    fixed = [([(a * k, b * k) for a, b in r], q) for r, q in walks]

    def rings(x):
        r, q = fixed[-1]
        return fixed[:-1] + [(move(r, x[0] * unit, x[1] * unit), q)]
    return dict(name='shifted:%d:%s' % (k, text_rings(walks)), exact=exact,
                ranges=[(-span, span)] * 2, base=[], rings=rings,
                start=[0, 0], flips=flips)


_DRAWN = {}


def drawn(kind, op=None):
    """Tangles kept because they lead to rarely executed places (found by
    tools/tangles.py): [(operation, fills, walks)]."""
    if not _DRAWN:
        import os
        with open(os.path.join(os.path.dirname(__file__),
                               'tangles.txt')) as f:
            for line in f:
                k, o, a, b, text = line.split()
                walks = []
                for ring in text.split(';'):
                    walks.append(([tuple(map(int, p.split('.')))
                                   for p in ring[1:].split(',')],
                                  'sc'.index(ring[0])))
                _DRAWN.setdefault(k, []).append((int(o), (int(a), int(b)),
                                                 walks))
    return [t for t in _DRAWN[kind] if op is None or t[0] == op]


def drawn_case(kind, walks, flips=3):
    if kind == 'rect':
        return walks_case(walks, True, flips)
    if kind == 'oct':
        if len(walks) < 3 and sum(len(r) for r, _ in walks) < 13:
            return oct_case(walks, flips=flips)
        return shifted_case([([(2 * a, 2 * b) for a, b in r], q)
                             for r, q in walks], 1, 16, True, flips, 2)
    return shifted_case(walks, 1, 12, False, flips)
