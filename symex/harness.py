"""Harnesses over the Python API: functions of (M, x), see ``lockstep``.

Each one drives the real classes of one implementation with symbolic numbers
and states, with ``require``, what must hold for every value of the symbols.
The value it returns must be the same for the port and the binding.
"""
from fractions import Fraction

from . import sym as S
from .lockstep import attempt, flat, require

EO, NZ, PO, NE = range(4)
METHODS = ('intersect', 'unite', 'subtract', 'symmetric_subtract')


# -- helpers ------------------------------------------------------------------
def slack(*values):
    """Tolerance of comparisons: none for symbolic (exact) numbers."""
    if any(isinstance(v, S.Sym) for v in values):
        return 0
    return Fraction(1, 10 ** 9) * (1 + max(abs(Fraction(v)) for v in values))


def exact(v):
    """The number without the rounding of floats."""
    if isinstance(v, S.Sym):
        return S.Sym(v.n, v.d, v.exact)
    return Fraction(v)


def near(a, b):
    t = slack(a, b)
    a, b = exact(a), exact(b)
    return a == b if not t else abs(a - b) <= t


def le(a, b):
    t = slack(a, b)
    a, b = exact(a), exact(b)
    return a <= b if not t else a <= b + t


def cross(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (b[0] - o[0]) * (a[1] - o[1])


def xy(p):
    return p.x, p.y


def area2(pts):
    """Twice the signed area of an open list of vertices."""
    s = 0
    n = len(pts)
    for i in range(n):
        (a, b), (c, d) = pts[i], pts[(i + 1) % n]
        s = s + (a * d - c * b)
    return s


def same(p, q):
    return p[0] == q[0] and p[1] == q[1]


def run_op(w, op, fills, M):
    return getattr(w, METHODS[op])(M.fill(fills[0]), M.fill(fills[1]))


def fill_wagyu(M, rings, reverse=False, closed=True):
    w = M.Wagyu(reverse)
    for pts, kind in rings:
        w.add_linear_ring(M.ring(pts, closed), M.polygon_kind(kind))
    return w


def rows(mp):
    return [[[xy(p) for p in ring] for ring in polygon] for polygon in mp]


def minimal(minimums):
    """What identifies local minima whatever the state left by execution."""
    out = []
    for m in minimums:
        for b in (m.left_bound, m.right_bound):
            out.append((flat(list(b.edges)), b.winding_delta,
                        flat(b.polygon_kind)))
        out.append((m.y, bool(m.minimum_has_horizontal)))
    return out


# -- rings to edges -------------------------------------------------------------
def ends(e):
    return xy(e.bottom), xy(e.top)


def traverse(edges):
    """Vertices met along the chain of edges, or None when broken."""
    n = len(edges)
    a, b = ends(edges[0])
    c, d = ends(edges[1])
    if same(b, c) or same(b, d):
        start, cur = a, b
    elif same(a, c) or same(a, d):
        start, cur = b, a
    else:
        return None
    pts = [start]
    for i in range(1, n):
        c, d = ends(edges[i])
        if same(cur, c):
            nxt = d
        elif same(cur, d):
            nxt = c
        else:
            return None
        pts.append(cur)
        cur = nxt
    return pts if same(cur, start) else None


def h_edges(make, closed=True):
    """Edges of a ring: a closed chain of proper edges with the same area."""
    def harness(M, x):
        pts = make(x)
        ring = M.ring(pts, closed)
        edges = list(ring.edges)
        n = len(pts)
        for p, q in zip(ring, pts):
            require(same(xy(p), q), 'ring changed by reading its edges')
        require(len(ring) == n + (1 if closed and n else 0),
                'ring changed by reading its edges')
        total = area2(pts)
        if not edges:
            require(total == 0, 'no edges for a ring %s of non-zero area',
                    pts)
            return flat(edges)
        require(len(edges) >= 3, 'only %s edges for %s', len(edges), pts)
        for e in edges:
            require(e.bottom.y >= e.top.y, 'edge upside down of %s', pts)
            require(not same(xy(e.bottom), xy(e.top)),
                    'zero-length edge of %s', pts)
            for q in ends(e):
                ok = False
                for p in pts:
                    if same(p, q):
                        ok = True
                        break
                require(ok, 'edge end %s is not a vertex of %s', q, pts)
        chain = traverse(edges)
        require(chain is not None, 'edges of %s are not a closed chain: %s',
                pts, flat(edges))
        k = len(chain)
        for i in range(k):
            require(cross(chain[i - 1], chain[i], chain[(i + 1) % k]) != 0,
                    'collinear neighbouring edges for %s', pts)
        got = area2(chain)
        require(got == total or got == -total,
                'edges of %s enclose area %s/2 instead of %s/2', pts, got,
                total)
        return flat(edges)
    return harness


def undirected(e):
    a, b = ends(e)
    return (a, b)


def take(pool, e):
    """Remove from the pool the edge with the ends of e; False if absent."""
    a, b = e
    for i, (c, d) in enumerate(pool):
        if same(a, c) and same(b, d) or same(a, d) and same(b, c):
            del pool[i]
            return True
    return False


def h_minima(make, kind=0, closed=True):
    """Local minima: monotone bounds, left and right, all the edges once."""
    def harness(M, x):
        pts = make(x)
        ring = M.ring(pts, closed)
        edges = list(ring.edges)
        ms = M.minimums()
        flag = ms.add_linear_ring(ring, M.polygon_kind(kind))
        require(bool(flag) == bool(edges), 'add_linear_ring returned %s for '
                '%s with %s edges', bool(flag), pts, len(edges))
        require(flag is True or flag is False, 'not a boolean')
        require(bool(flag) == (len(ms) > 0), 'minima of a refused ring')
        left = [undirected(e) for e in edges]
        total = 0
        for m in ms:
            lb, rb = m.left_bound, m.right_bound
            require(len(lb.edges) > 0 and len(rb.edges) > 0, 'empty bound')
            require(lb.winding_delta == -rb.winding_delta
                    and abs(lb.winding_delta) == 1, 'winding deltas')
            require(flat(lb.polygon_kind) == flat(rb.polygon_kind)
                    == flat(M.polygon_kind(kind)), 'polygon kind')
            require(flat(lb.side).endswith('LEFT')
                    and flat(rb.side).endswith('RIGHT'), 'sides')
            require(same(xy(lb.edges[0].bottom), xy(rb.edges[0].bottom)),
                    'bounds of a minimum of %s start apart', pts)
            require(m.y == lb.edges[0].bottom.y, 'minimum of %s at %s', pts,
                    m.y)
            horizontal = False
            for b in (lb, rb):
                es = list(b.edges)
                flatten = True
                for i, e in enumerate(es):
                    require(e.bottom.y >= e.top.y, 'descending bound')
                    h = e.bottom.y == e.top.y
                    require(bool(e.is_horizontal) == bool(h),
                            'horizontal flag')
                    if i:
                        require(same(xy(es[i - 1].top), xy(e.bottom)),
                                'broken bound of %s', pts)
                    if flatten and h:
                        horizontal = True
                    elif not h:
                        flatten = False
                    require(take(left, undirected(e)),
                            'edge of a bound of %s not in the ring', pts)
                    (a, c), (d, f) = ends(e)
                    total = total + b.winding_delta * (a * f - d * c)
                require(not flatten, 'horizontal only bound of %s', pts)
            require(bool(m.minimum_has_horizontal) == horizontal,
                    'horizontal minimum flag for %s', pts)
            fl = [e for e in lb.edges if e.bottom.y != e.top.y][0]
            fr = [e for e in rb.edges if e.bottom.y != e.top.y][0]
            if horizontal:
                require(fl.bottom.x <= fr.bottom.x, 'left bound of %s on the '
                        'right', pts)
            else:
                require(cross(xy(fl.bottom), xy(fl.top), xy(fr.top)) > 0,
                        'left bound of %s on the right', pts)
        if flag:
            require(not left, 'edges of %s missing from the bounds', pts)
            # bounds with delta 1 go along the ring, those with -1 against it
            want = area2(pts)
            require(total == want or total == -want,
                    'winding deltas of %s: area %s/2 instead of %s/2', pts,
                    total, want)
        beams = list(ms.scanbeams)
        require(len(beams) == len(ms), 'scanbeams')
        for i in range(1, len(beams)):
            require(beams[i - 1] <= beams[i], 'scanbeams out of order')
        ys = [m.y for m in ms]
        for b in beams:
            require(any(b == y for y in ys), 'scanbeam of no minimum')
        return [flat(ms), flat(beams), bool(flag)]
    return harness


# -- single edges ------------------------------------------------------------------
def h_edge(d):
    """An edge of direction d at a symbolic place, at a symbolic height."""
    dx, dy = d

    def harness(M, x):
        a = (x[0], x[1])
        b = (x[0] + dx, x[1] + dy)
        out = []
        es = []
        for p, q in ((a, b), (b, a)):
            e = M.Edge(M.Point(*p), M.Point(*q))
            require(e.bottom.y >= e.top.y, 'edge upside down')
            require(same(xy(e.bottom), p) and same(xy(e.top), q)
                    or same(xy(e.bottom), q) and same(xy(e.top), p),
                    'ends of the edge')
            require(bool(e.is_horizontal) == (dy == 0), 'is_horizontal')
            if dy:
                require(near(e.slope, Fraction(dx, dy)), 'slope %s',
                        e.slope)
            es.append(e)
            out.append(flat(e))
        e = es[0]
        if dy:
            y = x[2]
            t = y - x[1]
            true = x[0] + t * Fraction(dx, dy)
            require(near(e.get_current_x(y), true), 'current x of %s at %s: %s',
                    (a, b), y, e.get_current_x(y))
            lo, hi = e.get_min_x(y), e.get_max_x(y)
            half = Fraction(1, 2)
            # the part of the edge within half a unit of y
            xs = []
            for u in (y - half, y + half):
                if u > e.bottom.y:
                    u = e.bottom.y
                elif u < e.top.y:
                    u = e.top.y
                xs.append(x[0] + (u - x[1]) * Fraction(dx, dy))
            l, h = ((xs[0], xs[1]) if xs[0] <= xs[1] else (xs[1], xs[0]))
            require(le(lo - half, l) and le(l, lo + half),
                    'leftmost pixel of %s at %s: %s', (a, b), y, lo)
            require(le(hi - half, h) and le(h, hi + half),
                    'rightmost pixel of %s at %s: %s', (a, b), y, hi)
            require(lo <= hi, 'pixels of %s at %s: %s > %s', (a, b), y, lo,
                    hi)
            out.append((lo, hi))
        else:
            y = x[1]
            l, h = (x[0], x[0] + dx) if dx >= 0 else (x[0] + dx, x[0])
            require(e.get_min_x(y) == l and e.get_max_x(y) == h,
                    'pixels of a horizontal edge')
            before = xy(e.bottom), xy(e.top)
            e.reverse_horizontal()
            require(same(xy(e.bottom), before[1])
                    and same(xy(e.top), before[0]), 'reverse_horizontal')
        return out
    return harness


def h_cross(d, f):
    """Edges of directions d and f at symbolic places."""
    den = d[0] * f[1] - d[1] * f[0]

    def harness(M, x):
        a = (x[0], x[1])
        b = (x[0] + d[0], x[1] + d[1])
        c = (x[2], x[3])
        g = (x[2] + f[0], x[3] + f[1])
        e1 = M.Edge(M.Point(*a), M.Point(*b))
        e2 = M.Edge(M.Point(*c), M.Point(*g))
        p, q = e1 & e2, e2 & e1
        require((p is None) == (q is None), 'crossing is not symmetric')
        eq = bool(M.are_edges_slopes_equal(e1, e2))
        require(eq == (den == 0), 'slopes equality of %s and %s', d, f)
        if not den:
            require(p is None, 'parallel edges cross')
            return [None, eq]
        s = Fraction(1, den) * ((c[0] - a[0]) * f[1] - (c[1] - a[1]) * f[0])
        t = Fraction(1, den) * ((c[0] - a[0]) * d[1] - (c[1] - a[1]) * d[0])
        inside = s >= 0 and s <= 1 and t >= 0 and t <= 1
        if p is None:
            require(not inside, 'edges %s and %s meet but have no crossing',
                    (a, b), (c, g))
            return [None, eq]
        require(inside, 'edges %s and %s do not meet but have a crossing',
                (a, b), (c, g))
        w = (a[0] + s * d[0], a[1] + s * d[1])
        for z in (p, q):
            require(near(z.x, w[0]) and near(z.y, w[1]), 'edges %s and %s cross at '
                    '%s', (a, b), (c, g), (z.x, z.y))
        r = p.round() if M.port else None
        if r is not None:
            half = Fraction(1, 2)
            for u, v in ((r.x, w[0]), (r.y, w[1])):
                require(le(u - half, v) and le(v, u + half),
                        'rounding of %s to %s', v, u)
        return [flat(p), eq]
    return harness


# -- points, boxes ---------------------------------------------------------------------
def h_points(M, x):
    """Equality, slopes and betweenness of three points."""
    a, b, c = [(x[2 * i], x[2 * i + 1]) for i in range(3)]
    p, q, r = [M.Point(*t) for t in (a, b, c)]
    e = bool(p == q)
    require(e == (a[0] == b[0] and a[1] == b[1]), 'equality of points')
    require(bool(p != q) == (not e), 'inequality of points')
    between = bool(M.is_point_between_others(p, q, r))
    if e or same(b, c) or same(a, c):
        require(not between, 'a point between points equal to it')
    elif a[0] != c[0]:
        require(between == ((b[0] > a[0]) == (b[0] < c[0])),
                'betweenness')
    else:
        require(between == ((b[1] > a[1]) == (b[1] < c[1])),
                'betweenness')
    return [e, between]


def h_slopes(M, x):
    ys = [0, 3, 7]
    a, b, c = [(x[i], ys[i]) for i in range(3)]
    p, q, r = [M.Point(*t) for t in (a, b, c)]
    e = bool(M.are_points_slopes_equal(p, q, r))
    require(e == (cross(a, b, c) == 0), 'collinearity of %s', (a, b, c))
    return e


def h_boxes(M, x):
    def box(v):
        return M.Box(M.Point(v[0], v[1]), M.Point(v[2], v[3]))
    a, b = box(x[:4]), box(x[4:8])
    r = bool(a.inside_of(b))
    want = (x[4] <= x[0] and x[5] <= x[1] and x[2] <= x[6] and x[3] <= x[7])
    require(r == want, 'box %s inside of %s: %s', x[:4], x[4:8], r)
    require(bool(a.inside_of(a)), 'a box is inside of itself')
    s = bool(b.inside_of(a))
    if r and s:
        require(a == b, 'boxes inside of each other differ')
    return [r, s]


# -- point in polygon, nesting ----------------------------------------------------------
def locate(p, pts):
    """-1 on the boundary, 0 inside, 1 outside (even-odd)."""
    n = len(pts)
    inside = False
    for i in range(n):
        a, b = pts[i], pts[(i + 1) % n]
        if a[1] == b[1]:
            if p[1] == a[1]:
                lo, hi = (a[0], b[0]) if a[0] <= b[0] else (b[0], a[0])
                if lo <= p[0] and p[0] <= hi:
                    return -1
            continue
        lo, hi = (a, b) if a[1] < b[1] else (b, a)
        if p[1] < lo[1] or p[1] > hi[1]:
            continue
        c = cross(lo, hi, p)
        if c == 0:
            return -1
        if p[1] < hi[1] and c > 0:
            inside = not inside
    return 0 if inside else 1


def h_locate(make, place):
    """Location of a point against a ring."""
    def harness(M, x):
        pts = make(x)
        p = place(x)
        ring = M.Ring(0, [], M.points(pts), False)
        if not hasattr(M, 'point_in_polygon'):
            return None
        got = int(M.point_in_polygon(M.Point(*p), ring.node))
        want = locate(p, pts)
        require(got == want, 'point %s against %s: %s instead of %s', p,
                pts, got, want)
        return got
    return harness


def h_inside(make):
    """Nesting of two rings which do not cross."""
    def harness(M, x):
        inner, outer, nested = make(x)
        a = M.Ring(0, [], M.points(inner), False)
        b = M.Ring(1, [], M.points(outer), False)
        for r in (a, b):
            r.recalculate_stats()
        got = bool(a.inside_of(b))
        if nested is not None:
            require(got == nested, 'ring %s inside of %s: %s', inner, outer,
                    got)
        return [got, a.area, b.area]
    return harness


def h_ring(make):
    """Statistics of the ring of nodes and their order."""
    def harness(M, x):
        pts = make(x)
        ring = M.Ring(3, [], M.points(pts), False)
        back = [xy(p) for p in ring.points]
        require(len(back) == len(pts), 'points of the ring')
        for p, q in zip(back, pts):
            require(same(p, q), 'points of the ring')
        # the first area computed is kept until reset
        a = ring.area
        total = area2(pts)
        require(a + a == total or a + a == -total, 'area %s of %s', a, pts)
        require(a + a == -total, 'sign of the area %s of %s', a, pts)
        require(ring.size == len(pts), 'size')
        require(bool(ring.is_hole) == (a <= 0), 'hole')
        box = ring.box
        lx = hx = pts[0][0]
        ly = hy = pts[0][1]
        for u, v in pts[1:]:
            lx, hx = (u if u < lx else lx), (u if u > hx else hx)
            ly, hy = (v if v < ly else ly), (v if v > hy else hy)
        require(box.minimum.x == lx and box.minimum.y == ly
                and box.maximum.x == hx and box.maximum.y == hy,
                'box %s of %s', flat(box), pts)
        order = ([xy(n) for n in ring.sorted_nodes] if M.port
                 else [xy(p) for p in ring.sorted_points])
        require(len(order) == len(pts), 'sorted nodes')
        for p, q in zip(order, order[1:]):
            require(p[1] > q[1] or p[1] == q[1] and p[0] <= q[0],
                    'nodes out of order: %s', order)
        left = list(pts)
        for p in order:
            hit = [i for i, q in enumerate(left) if same(p, q)]
            require(bool(hit), 'sorted nodes')
            del left[hit[0]]
        out = [a, bool(ring.is_hole), flat(box), order]
        ring.reset_stats()
        require(ring.area == a, 'area after a reset')
        if M.port:
            bottom = ring.node.bottom_node
            for p in pts:
                require(bottom.y > p[1] or bottom.y == p[1]
                        and bottom.x <= p[0], 'bottom of %s: %s', pts,
                        xy(bottom))
            ring.node.reverse()
            rev = [xy(p) for p in ring.points]
            want = [pts[0]] + list(pts[:0:-1])
            for p, q in zip(rev, want):
                require(same(p, q), 'reversed nodes')
            ring.recalculate_stats()
            require(ring.area == -a, 'area of reversed nodes')
        return out
    return harness


def flatness(pts, i):
    """Of the two edges at a lowest vertex: [(|dx|, |dy|)] of those of some
    length, nearest first in both directions."""
    n = len(pts)
    out = []
    for step in (-1, 1):
        j = (i + step) % n
        while same(pts[j], pts[i]) and j != i:
            j = (j + step) % n
        a, b = pts[j][0] - pts[i][0], pts[i][1] - pts[j][1]
        out.append((a if a >= 0 else -a, b))
    return out


def flatter(e, f):
    """Whether an edge is flatter than another: 1, 0 or -1."""
    if e[1] == 0 or f[1] == 0:
        return (e[1] == 0) - (f[1] == 0)
    a, b = e[0] * f[1], f[0] * e[1]
    return 1 if a > b else -1 if a < b else 0


def flattest(edges):
    return edges[0] if flatter(edges[0], edges[1]) >= 0 else edges[1]


def h_bottom(make, places):
    """A ring passing its lowest vertex twice, at the given places: the
    bottom node is there where an edge is flatter than both of the other."""
    def harness(M, x):
        pts = make(x)
        ring = M.Ring(0, [], M.points(pts), False)
        nodes = list(ring.node)
        bottom = ring.node.bottom_node
        hit = [k for k, n in enumerate(nodes) if n is bottom]
        require(len(hit) == 1 and same(pts[hit[0]], pts[places[0]]),
                'bottom of %s: %s', pts, xy(bottom))
        if hit[0] not in places:
            return None
        other = places[0] if hit[0] == places[1] else places[1]
        require(flatter(flattest(flatness(pts, hit[0])),
                        flattest(flatness(pts, other))) >= 0,
                'bottom of %s: vertex %s with the steeper edges', pts, hit[0])
        return None
    return harness


def h_lower(make):
    """The lower of two rings: the one whose lowest vertex is lower, then
    further left, then with the flatter edges."""
    def harness(M, x):
        rings = []
        for k, pts in enumerate(make(x)):
            rings.append((M.Ring(k, [], M.points(pts), False), pts))
        got = rings[0][0].get_lowermost_ring(rings[1][0])
        require(got is rings[0][0] or got is rings[1][0], 'another ring')
        low = []
        for ring, pts in rings:
            b = 0
            for i, (u, v) in enumerate(pts):
                if v > pts[b][1] or v == pts[b][1] and u < pts[b][0]:
                    b = i
            low.append(b)
        (u, v), (s, t) = rings[0][1][low[0]], rings[1][1][low[1]]
        if v != t:
            want = v > t
        elif u != s:
            want = u < s
        else:
            f = flatter(flattest(flatness(rings[0][1], low[0])),
                        flattest(flatness(rings[1][1], low[1])))
            if not f:
                return None
            want = f > 0
        require((got is rings[0][0]) == want, 'the lower of %s and %s',
                rings[0][1], rings[1][1])
        back = rings[1][0].get_lowermost_ring(rings[0][0])
        require(back is got, 'the lower of %s and %s, asked the other way '
                'round', rings[0][1], rings[1][1])
        return None
    return harness


# -- winding counts ------------------------------------------------------------------
def inside(fill, w):
    return (w % 2 != 0 if fill == EO else w != 0 if fill == NZ
            else w > 0 if fill == PO else w < 0)


def holds(op, s, c):
    return ((s and c) if op == 0 else (s or c) if op == 1
            else (s and not c) if op == 2 else s != c)


def h_windings(n, fills, ops=(0, 1, 2, 3)):
    """Bounds crossed from the left, each of symbolic kind and direction: a
    bound contributes iff the membership in the result changes there."""
    def harness(M, x):
        kinds = [0 if x[i] > 0 else 1 for i in range(n)]
        deltas = [1 if x[n + i] > 0 else -1 for i in range(n)]
        out = []
        for fs, fc in fills:
            bounds = []
            sums = [0, 0]
            for i in range(n):
                e = M.Edge(M.Point(10 * i, 10), M.Point(10 * i, 0))
                bounds.append(M.Bound([e], 0, 1, M.Point(0, 0), None,
                                      10. * i, i, 0, 0, deltas[i],
                                      M.polygon_kind(kinds[i]),
                                      M.EdgeSide.LEFT))
            for i in range(n):
                bounds = (M.set_winding_count(i, bounds, M.fill(fs),
                                              M.fill(fc)) or bounds)
                b = bounds[i]
                k = kinds[i]
                before = [inside(f, w) for f, w in zip((fs, fc), sums)]
                sums[k] += deltas[i]
                after = [inside(f, w) for f, w in zip((fs, fc), sums)]
                for op in ops:
                    got = bool(b.is_contributing(M.operation(op), M.fill(fs),
                                                 M.fill(fc)))
                    want = holds(op, *before) != holds(op, *after)
                    require(got == want, 'bound %s of kinds %s deltas %s '
                            'under %s contributes to %s: %s', i, kinds,
                            deltas, (fs, fc), op, got)
                out.append((b.winding_count, b.opposite_winding_count))
        return out
    return harness


def h_contributing(fs, fc, kind):
    """is_contributing for arbitrary symbolic winding numbers (the port)."""
    def harness(M, x):
        w, o, up = x
        delta = 1 if up > 0 else -1
        mine, other = (fs, fc) if kind == 0 else (fc, fs)
        u = w + delta
        if mine == EO:
            count = delta
        else:
            # the winding number of the side farther from zero
            count = u if w * w < u * u else w
        before, after = inside(mine, w), inside(mine, u)
        opposite = inside(other, o)
        b = M.Bound([M.Edge(M.Point(0, 1), M.Point(0, 0))], 0, 1,
                    M.Point(0, 0), None, 0., 0, count,
                    (1 if opposite else 0) if other == EO else o, delta,
                    M.polygon_kind(kind), M.EdgeSide.LEFT)
        for op in range(4):
            got = bool(b.is_contributing(M.operation(op), M.fill(fs),
                                         M.fill(fc)))
            p = (before, opposite) if kind == 0 else (opposite, before)
            q = (after, opposite) if kind == 0 else (opposite, after)
            require(got == (holds(op, *p) != holds(op, *q)),
                    'bound between winding numbers %s and %s (other %s) '
                    'under %s contributes to %s: %s', w, u, o, (fs, fc), op,
                    got)
        require(bool(b.is_even_odd_fill_kind(M.fill(fs), M.fill(fc)))
                == (mine == EO), 'even-odd')
        require(bool(b.is_even_odd_alt_fill_kind(M.fill(fs), M.fill(fc)))
                == (other == EO), 'even-odd of the other kind')
        return None
    return harness


# -- sorting and searching ---------------------------------------------------------------
def h_bubble(n, strict=False):
    def harness(M, x):
        tagged = [(x[i], i) for i in range(n)]
        swaps = []
        got = list(M.bubble_sort(
                list(tagged),
                (lambda a, b: bool(a[0] <= b[0])),
                lambda a, b: swaps.append((a[1], b[1]))))
        require(sorted(t for _, t in got) == list(range(n)),
                'not a permutation')
        for a, b in zip(got, got[1:]):
            require(a[0] < b[0] or a[0] == b[0] and a[1] < b[1],
                    'not sorted stably: %s', [v for v, _ in got])
        place = {t: i for i, (_, t) in enumerate(got)}
        for i in range(n):
            for j in range(i + 1, n):
                k = swaps.count((i, j))
                require(k == (1 if place[i] > place[j] else 0),
                        'swaps of %s', x[:n])
        require(len(swaps) == sum(1 for i in range(n) for j in range(i)
                                  if place[j] > place[i]), 'swaps')
        return [t for _, t in got], swaps
    return harness


def h_utilities(n):
    """quicksort, insort_unique, find_if of the port."""
    def harness(M, x):
        seq = list(x[:n])
        if hasattr(M, 'quicksort'):
            M.quicksort(seq, lambda a, b: bool(a >= b))
        else:
            seq.sort()
        require(len(seq) == n, 'length')
        for a, b in zip(seq, seq[1:]):
            require(a <= b, 'not sorted')
        left = list(seq)
        for v in x[:n]:
            hit = [i for i, w in enumerate(left) if w == v]
            require(bool(hit), 'not a permutation')
            del left[hit[0]]
        if not hasattr(M, 'insort_unique') or not hasattr(M, 'find_if'):
            return None
        uniq = []
        for v in x[:n]:
            M.insort_unique(uniq, v)
        for a, b in zip(uniq, uniq[1:]):
            require(a < b, 'not strictly sorted')
        for v in x[:n]:
            require(any(v == u for u in uniq), 'value lost')
        for u in uniq:
            require(any(v == u for v in x[:n]), 'value made up')
        i = M.find_if(lambda v: v > 0, list(x[:n]))
        for j in range(i):
            require(not x[j] > 0, 'find_if')
        require(i == n or x[i] > 0, 'find_if')
        return None
    return harness


def h_hot_sort(n):
    """sort_hot_pixels: from the bottom to the top, from left to right,
    without repetitions."""
    def harness(M, x):
        pts = [(x[2 * i], x[2 * i + 1]) for i in range(n)]
        m = M.RingManager([], M.points(pts), 0, [], 0)
        m.sort_hot_pixels()
        got = [xy(p) for p in m.hot_pixels]
        for p, q in zip(got, got[1:]):
            require(p[1] > q[1] or p[1] == q[1] and p[0] <= q[0],
                    'hot pixels out of order')
        for p in pts:
            require(any(same(p, q) for q in got), 'hot pixel lost')
        for q in got:
            require(any(same(p, q) for p in pts), 'hot pixel made up')
        return got
    return harness


def h_orders(M, x):
    """Orders of local minima and of crossings."""
    def bound(y):
        return M.Bound([M.Edge(M.Point(0, y), M.Point(0, y - 5))])

    def minimum(y, h):
        return M.LocalMinimum(bound(10), bound(10), y, h)
    a, b, c = [minimum(x[i], x[3 + i] > 0) for i in range(3)]
    ha, hb, hc = [bool(m.minimum_has_horizontal) for m in (a, b, c)]
    l = bool(a < b)
    require(l == (a.y < b.y or a.y == b.y and hb and not ha),
            'order of minima')
    require(not (l and bool(b < a)), 'order of minima')
    require(not bool(a < a), 'order of minima')
    if l and bool(b < c):
        require(bool(a < c), 'order of minima is not transitive')
    return l


def h_crossing_order(M, x):
    def bound(owc):
        return M.Bound([M.Edge(M.Point(0, 10), M.Point(0, 0))], 0, 1,
                       M.Point(0, 0), None, 0., 0, 0, owc, 1,
                       M.polygon_kind(0), M.EdgeSide.LEFT)
    def node(y, k):
        return M.IntersectNode(bound(k), bound(1), M.Point(0, y))
    ks = [0 if x[2 + i] > 0 else 3 for i in range(2)]
    a, b = node(x[0], ks[0]), node(x[1], ks[1])
    l = bool(a < b)
    if x[0] != x[1]:
        require(l == (x[1] < x[0]), 'crossings are not taken from the bottom')
    else:
        require(l == (ks[0] < ks[1]), 'order of crossings at a height')
    return l


def h_crossing_ulps(height):
    """Order of crossings at heights a few units in the last place apart."""
    import struct

    def step(v, k):
        raw = struct.unpack('<q', struct.pack('<d', v))[0]
        return struct.unpack('<d', struct.pack('<q', raw + k))[0]

    def harness(M, x):
        k = 0
        while k < 7 and x[0] > k:
            k += 1

        def bound(owc):
            return M.Bound([M.Edge(M.Point(0, 10), M.Point(0, 0))], 0, 1,
                           M.Point(0, 0), None, 0., 0, 0, owc, 1,
                           M.polygon_kind(0), M.EdgeSide.LEFT)

        def node(y, w):
            return M.IntersectNode(bound(w), bound(1), M.Point(0., y))
        p, q = height, step(height, k)
        if x[1] > 0:
            p, q = q, p
        ks = [0 if x[2 + i] > 0 else 3 for i in range(2)]
        a, b = node(p, ks[0]), node(q, ks[1])
        l = bool(a < b)
        if k <= 4:
            require(l == (ks[0] < ks[1]), 'order of crossings %d units in '
                    'the last place apart', k)
        else:
            require(l == (q < p), 'order of crossings %d units in the last '
                    'place apart', k)
        return l
    return harness


# -- equality and copies --------------------------------------------------------------------
def h_equality(M, x):
    """Values are equal iff their coordinates are; copies are equal."""
    import copy
    a, b = [(x[4 * i], x[4 * i + 1], x[4 * i + 2], x[4 * i + 3])
            for i in range(2)]
    eq = all(u == v for u, v in zip(a, b))
    out = []

    def both(make):
        p, q = make(a), make(b)
        r = bool(p == q)
        require(r == eq, '%s: equality of %s and %s is %s',
                type(p).__name__, a, b, r)
        require(bool(p != q) == (not r), 'inequality')
        require(p == make(a), 'not equal to its like')
        require(not (p == 'other') and p != 'other',
                'equal to a value of another type')
        if type(p).__name__ not in ('Wagyu', 'LocalMinimumList'):
            for c in (copy.copy(p), copy.deepcopy(p)):
                require(c == p, 'copy of %s', type(p).__name__)
                require(c is not p, 'copy')
        out.append(r)

    def point(v):
        return M.Box(M.Point(v[0], v[1]), M.Point(v[2], v[3]))

    def ring(v):
        return M.LinearRing([M.Point(v[0], v[1]), M.Point(v[2], v[3])])

    def polygon(v):
        return M.Polygon([M.LinearRing([M.Point(v[0], v[1])]),
                          M.LinearRing([M.Point(v[2], v[3])])])

    def multipolygon(v):
        return M.Multipolygon([M.Polygon([M.LinearRing([M.Point(*v[:2])])]),
                               M.Polygon([M.LinearRing([M.Point(*v[2:])])])])
    for make in (point, ring, polygon, multipolygon):
        both(make)
    for make in (ring, polygon, multipolygon):
        p = make(a)
        require(len(p) == (2 if make is not None else 0), 'length')
        items = [i for i in p]
        require(len(items) == len(p), 'iteration')
        for i in range(len(p)):
            require(p[i] == items[i], 'indexing')
            require(p[-1 - i] == items[len(p) - 1 - i], 'negative index')
            require(items[i] in p, 'membership')
        require(attempt(lambda: p[len(p)])[0] == 'raises', 'index too large')
    e = M.Edge(M.Point(a[0], 3), M.Point(a[1], 1))
    f = M.Edge(M.Point(b[0], 3), M.Point(b[1], 1))
    require(bool(e == f) == (a[0] == b[0] and a[1] == b[1]),
            'equality of edges')
    require(copy.copy(e) == e and copy.deepcopy(e) == e, 'copy of an edge')
    w, v = M.Wagyu(), M.Wagyu()
    tri = [(a[0], 0), (a[0] + 4, 8), (a[0] - 4, 9)]
    ti2 = [(b[0], 0), (b[0] + 4, 8), (b[0] - 4, 9)]
    w.add_linear_ring(M.ring(tri), M.polygon_kind(0))
    v.add_linear_ring(M.ring(ti2), M.polygon_kind(0))
    require(bool(w == v) == (a[0] == b[0]), 'equality of operation inputs')
    require(not (M.Wagyu(True) == M.Wagyu(False)), 'reverse_output ignored '
            'by equality')
    return out


def pick(s, n):
    """The number 0..n-1 which the symbol is, decided on the path."""
    for i in range(n - 1):
        if s == i:
            return i
    return n - 1


def h_parts(kind):
    """Two values of a class which differ in one part, or in none."""
    def harness(M, x):
        import copy
        import pickle
        d = x[1]

        def P(a, b):
            return M.Point(a, b)

        def ring(pts):
            return M.LinearRing([P(a, b) for a, b in pts])

        tri = [(0, 0), (8, 1), (3, 9)]
        sq = [(0, 0), (9, 0), (9, 9), (0, 9)]

        def moved(pts, i):
            return [((a + d, b) if 2 * k == i else (a, b + d)
                     if 2 * k + 1 == i else (a, b))
                    for k, (a, b) in enumerate(pts)]

        def edge(i=-1):
            v = [3, 20, 5, -7]
            if 0 <= i < 4:
                v[i] = v[i] + d
            return M.Edge(P(v[0], v[1]), P(v[2], v[3]))

        def point(i):
            return P(4 + (d if i == 0 else 0), 6 + (d if i == 1 else 0))

        def box(i):
            v = [3, 20, 5, 70]
            if i < 4:
                v[i] = v[i] + d
            return M.Box(P(v[0], v[1]), P(v[2], v[3]))

        def linear_ring(i):
            if i == 6:
                return ring(tri + tri[:1])
            if i == 7:
                return ring(tri[:2])
            return ring(moved(tri, i))

        def polygon(i):
            if i == 14:
                return M.Polygon([ring(tri)])
            if i == 15:
                return M.Polygon([ring(tri), ring(sq), ring(sq)])
            if i == 16:
                return M.Polygon([ring(sq), ring(tri)])
            return M.Polygon([ring(moved(tri, i)), ring(moved(sq, i - 6))])

        def multipolygon(i):
            a = M.Polygon([ring(moved(tri, i))])
            b = M.Polygon([ring(tri), ring(moved(sq, i - 6))])
            if i == 14:
                return M.Multipolygon([a])
            if i == 15:
                return M.Multipolygon([b, a])
            if i == 16:
                return M.Multipolygon([])
            if i == 17:
                return M.Multipolygon([a, b, M.Polygon([])])
            return M.Multipolygon([a, b])

        def bound(i=-1, j=0):
            v = [[edge(i if i < 4 else -1), edge()], 0, 1,
                 point(i - 4 if i in (4, 5) else 9), None, 2., 1, 3, -2, 1,
                 M.polygon_kind(0), M.EdgeSide.LEFT]
            if i == 6:
                v[5] = v[5] + d
            elif 7 <= i <= 10:
                v[i - 1] = 7
            elif i == 11:
                v[10] = M.polygon_kind(1)
            elif i == 12:
                v[11] = M.EdgeSide.RIGHT
            elif i == 13:
                v[1] = 1
            elif i == 14:
                v[2] = 2
            elif i == 15:
                v[0] = v[0][:1]
                v[1], v[2] = 0, 1
            elif i == 16:
                v[9] = -1
            elif i == 17:
                v[4] = M.Ring(3)
            return M.Bound(*v)

        def minimum(i):
            a = bound(5 if i == 0 else -1)
            b = bound(3 if i == 1 else -1)
            return M.LocalMinimum(a, b, 4 + (d if i == 2 else 0), i == 3)

        def minimums(i):
            if i == 4:
                return M.minimums([minimum(9)])
            if i == 5:
                return M.minimums([])
            return M.minimums([minimum(9), minimum(i)])

        keep = []

        def node(i):
            a = bound(5 if i == 0 else -1)
            b = bound(3 if i == 1 else -1)
            keep.extend((a, b))
            return M.IntersectNode(a, b, point(i - 2 if i in (2, 3) else 9))

        def wagyu(i):
            w = M.Wagyu(i == 0)
            w.add_linear_ring(ring([(3, 1), (9, 3), (d if i == 1 else 0, 9)]),
                              M.polygon_kind(i == 2))
            if i == 3:
                w.add_linear_ring(ring(sq), M.polygon_kind(1))
            if i == 4:
                w.clear()
            return w

        make, n = dict(
                Point=(point, 2), Edge=(edge, 4), Box=(box, 4),
                LinearRing=(linear_ring, 8), Polygon=(polygon, 17),
                Multipolygon=(multipolygon, 18), Bound=(bound, 18),
                LocalMinimum=(minimum, 4), LocalMinimumList=(minimums, 6),
                IntersectNode=(node, 4), Wagyu=(wagyu, 5))[kind]
        i = pick(x[0], n + 1)
        a, b = make(99), make(i)
        equal = i == n
        if kind == 'Bound' and i == 10:
            equal = False
        require(bool(a == b) == equal, '%s: equality with part %s changed '
                'by %s', kind, i, d)
        require(bool(b == a) == equal, '%s: equality the other way round, '
                'part %s', kind, i)
        require(bool(a != b) != equal, '%s: inequality, part %s', kind, i)
        require(bool(b == make(i)), '%s: not equal to its like', kind)
        require(not (a == 'other') and a != 5, 'equal to another type')
        if kind in ('LinearRing', 'Polygon', 'Multipolygon',
                    'LocalMinimumList'):
            parts = list(b)
            require(len(parts) == len(b), 'length')
            for k, part in enumerate(parts):
                require(part in b, 'part %s is missing', k)
                require(bool(b[k] == part) and bool(b[k - len(b)] == part),
                        'index %s', k)
            require(attempt(lambda: b[len(b)])[0] == 'raises',
                    'index too large')
            require(attempt(lambda: b[-len(b) - 1])[0] == 'raises',
                    'index too small')
            for part in list(a):
                found = False
                for own in parts:
                    if own == part:
                        found = True
                        break
                require((part in b) == found, 'membership')
        if kind in ('Point', 'Edge', 'Box', 'LinearRing', 'Polygon',
                    'Multipolygon'):
            for c in (copy.copy(b), copy.deepcopy(b)):
                require(bool(c == b), 'copy of %s with %s', kind, i)
                require(flat(c) == flat(b), 'parts of a copy of %s', kind)
            if hasattr(b, '__getstate__') and not M.port:
                c = type(b).__new__(type(b))
                c.__setstate__(b.__getstate__())
                require(bool(c == b), 'pickle of %s with %s', kind, i)
            elif M.kind == 'real':
                c = pickle.loads(pickle.dumps(b))
                require(bool(c == b), 'pickle of %s with %s', kind, i)
        if kind == 'LocalMinimumList' and M.port:
            c = M.minimums(list(b))
            extra = minimum(2)
            k = pick(x[2], len(c) + 1)
            c.insert(k, extra)
            require(len(c) == len(b) + 1, 'length after insertion')
            require(c[k] is extra, 'insertion at %s', k)
            for j in range(len(b)):
                require(bool(c[j + (j >= k)] == b[j]), 'insertion moved %s', j)
            del c[k]
            require(bool(c == b), 'deletion undoes insertion')
            if len(c):
                c[0] = extra
                require(c[0] is extra and len(c) == len(b), 'assignment')
            c.append(extra)
            require(c[-1] is extra and len(c) == len(b) + 1, 'appending')
        return bool(a == b), flat(b) if kind != 'Wagyu' else None
    return harness


# -- whole operations -------------------------------------------------------------------------
def h_pipeline(case, op, fills, closed=True):
    """The states of the computation, step by step."""
    steps = ('correct_orientations', 'correct_collinear_edges')

    def harness(M, x):
        rings = case['rings'](x)
        ms = M.minimums()
        out = []
        for pts, kind in rings:
            out.append(bool(ms.add_linear_ring(M.ring(pts, closed),
                                               M.polygon_kind(kind))))
        out.append(('minima', flat(ms)))
        m = M.RingManager()
        m.build_hot_pixels(ms)
        out.append(('hot pixels', [xy(p) for p in m.hot_pixels]))
        m.execute_vatti(ms, M.operation(op), M.fill(fills[0]),
                        M.fill(fills[1]))
        out.append(('vatti', state(m)))
        r = attempt(m.correct_topology)
        out.append(r[0])
        if r[0] == 'ok':
            out.append(('corrected', state(m)))
            for reverse in (False, True):
                out.append(('result', rows(m.build_result(reverse))))
        return out
    return harness


def state(m):
    """The rings held by a ring manager, as they hang in the tree."""
    def one(r, depth=0):
        if r is None:
            return None
        return (r.index, [xy(p) for p in r.points], bool(r.corrected),
                r.depth, [one(c, depth + 1) for c in r.children]
                if depth < 20 else None)
    return ([one(r) for r in m.children], m.index,
            [xy(p) for p in m.hot_pixels],
            [[r.index, len(r.points)] for r in m.rings])


def norm(ring):
    return ring


def h_reverse(case, op, fills, closed=True):
    """reverse_output turns every ring around, and does nothing else."""
    def harness(M, x):
        rings = case['rings'](x)
        outs = []
        for reverse in (False, True):
            w = fill_wagyu(M, rings, reverse, closed)
            require(bool(w.reverse_output) == reverse, 'reverse_output')
            outs.append(rows(run_op(w, op, fills, M)))
        a, b = outs
        require(len(a) == len(b), 'number of polygons')
        for p, q in zip(a, b):
            require(len(p) == len(q), 'number of rings')
            for i, (r, s) in enumerate(zip(p, q)):
                require(len(r) == len(s), 'number of vertices')
                for u, v in zip(r, s[::-1]):
                    require(same(u, v), 'reverse_output gives %s besides %s',
                            s, r)
                t = area2(r[:-1])
                require(t > 0 if i == 0 else t < 0,
                        'orientation of ring %s: %s', i, r)
        return outs
    return harness


def h_history(case, program, closed=True):
    """A sequence of calls on one object against fresh objects."""
    def harness(M, x):
        rings = case['rings'](x)
        cut = len(rings) // 2 or 1
        first = [M.ring(p, closed) for p, _ in rings]
        before = [[xy(p) for p in r] for r in first]
        w = M.Wagyu()
        here = []
        out = []

        def fresh():
            v = M.Wagyu()
            for i in here:
                v.add_linear_ring(M.ring(rings[i][0], closed),
                                  M.polygon_kind(rings[i][1]))
            return v
        for step in program:
            if step[0] == 'add':
                i = step[1] % len(rings)
                w.add_linear_ring(first[i], M.polygon_kind(rings[i][1]))
                here.append(i)
            elif step[0] == 'polygon':
                i = step[1] % len(rings)
                same_kind = [j for j in range(len(rings))
                             if rings[j][1] == rings[i][1]]
                w.add_polygon(M.Polygon([first[j] for j in same_kind]),
                              M.polygon_kind(rings[i][1]))
                here.extend(same_kind)
            elif step[0] == 'clear':
                w.clear()
                here.clear()
                require(len(w.minimums) == 0, 'clear')
            elif step[0] == 'bounds':
                b, c = w.bounds, fresh().bounds
                require(b == c, 'bounds %s instead of %s', flat(b), flat(c))
            else:
                _, op, fs, fc = step
                got = rows(run_op(w, op, (fs, fc), M))
                want = rows(run_op(fresh(), op, (fs, fc), M))
                d = unlike(got, want)
                require(not d, '%s after %s: %s instead of %s', METHODS[op],
                        str(program), got, want)
                out.append(got)
            require(minimal(w.minimums) is not None, '')
        a, b = minimal(w.minimums), minimal(fresh().minimums)
        require(not unlike_flat(a, b), 'the stored edges changed')
        for r, want in zip(first, before):
            got = [xy(p) for p in r]
            require(len(got) == len(want) and all(
                    same(u, v) for u, v in zip(got, want)),
                    'input ring changed to %s from %s', got, want)
        return out
    return harness


def unlike(a, b):
    """Whether two nested lists of points differ."""
    if len(a) != len(b):
        return True
    for p, q in zip(a, b):
        if isinstance(p, list):
            if unlike(p, q):
                return True
        elif not same(p, q):
            return True
    return False


def unlike_flat(a, b):
    from .lockstep import difference

    def tup(v):
        return tuple(map(tup, v)) if isinstance(v, (list, tuple)) else v
    return difference(tup(a), tup(b))


def h_bounds(case, closed=True, operate=True):
    """The box of what was added, its clearing, empty inputs."""
    def harness(M, x):
        rings = case['rings'](x)
        w = M.Wagyu()
        zero = M.Box(M.Point(0, 0), M.Point(0, 0))
        require(w.bounds == zero, 'bounds of nothing')
        require(len(w.intersect()) == 0 and len(w.unite()) == 0
                and len(w.subtract()) == 0
                and len(w.symmetric_subtract()) == 0, 'result from nothing')
        pts = []
        for ring, kind in rings:
            lr = M.ring(ring, closed)
            r = w.add_linear_ring(lr, M.polygon_kind(kind))
            edges = list(lr.edges)
            require(bool(r) == bool(edges), 'returned value')
            for e in edges:
                pts.extend(ends(e))
            box = w.bounds
            if not pts:
                require(box == zero, 'bounds of nothing')
                continue
            lx = hx = pts[0][0]
            ly = hy = pts[0][1]
            for u, v in pts[1:]:
                lx, hx = (u if u < lx else lx), (u if u > hx else hx)
                ly, hy = (v if v < ly else ly), (v if v > hy else hy)
            require(box.minimum.x == lx and box.minimum.y == ly
                    and box.maximum.x == hx and box.maximum.y == hy,
                    'bounds %s of %s', flat(box), pts)
        before = flat(w.bounds)
        if operate:
            run_op(w, 1, (1, 1), M)
        require(not unlike_flat(before, flat(w.bounds)),
                'bounds changed by an operation')
        w.clear()
        require(w.bounds == zero and len(w.minimums) == 0, 'clear')
        require(len(w.unite()) == 0, 'result after clear')
        require(w == M.Wagyu(), 'cleared object')
        return before
    return harness


GOOD = ([(0, 0), (5, 0), (0, 5)], [(40, 3), (47, 8), (41, 30), (39, 21)])


def h_degenerate(case, junk, op, fills, closed=True):
    """Rings of no area add nothing and are reported as such."""
    def harness(M, x):
        rings = case['rings'](x)
        w = fill_wagyu(M, rings, False, closed)
        v = M.Wagyu()
        flags = []
        bad = junk(x)
        for i, (pts, kind) in enumerate(rings):
            if i < len(bad):
                flags.append(v.add_linear_ring(M.ring(bad[i], closed),
                                               M.polygon_kind(kind)))
            v.add_linear_ring(M.ring(pts, closed), M.polygon_kind(kind))
        for pts in bad[len(rings):]:
            flags.append(v.add_linear_ring(M.ring(pts, closed),
                                           M.polygon_kind(0)))
        for f, pts in zip(flags, bad):
            require(f is False or not bool(f), 'ring %s of no area accepted',
                    pts)
        poly = M.Polygon([M.ring(p, closed) for p in bad])
        require(not v.add_polygon(poly, M.polygon_kind(1)),
                'polygon of no area accepted')
        one, two = GOOD
        for kind in (0, 1):
            apart = M.Wagyu()
            for pts in GOOD:
                require(bool(apart.add_linear_ring(M.ring(pts, closed),
                                                   M.polygon_kind(kind))),
                        'proper ring refused')
            for k in range(len(bad) + 1):
                mixed = [*bad[:k], one, *bad[k:], two, *bad]
                alone = [*bad[:k], one, *bad[k:]]
                for some, twice in ((mixed, True), (alone, False)):
                    u = M.Wagyu()
                    require(bool(u.add_polygon(
                            M.Polygon([M.ring(p, closed) for p in some]),
                            M.polygon_kind(kind))),
                            'polygon %s with a proper ring refused', some)
                    if twice:
                        require(not unlike_flat(minimal(u.minimums),
                                                minimal(apart.minimums)),
                                'polygon %s: proper rings lost', some)
        a = rows(run_op(w, op, fills, M))
        b = rows(run_op(v, op, fills, M))
        require(not unlike(a, b), 'degenerate rings %s change %s to %s', bad,
                a, b)
        require(not unlike_flat(minimal(w.minimums), minimal(v.minimums)),
                'degenerate rings leave edges')
        return a
    return harness


def h_hot_pixels(case, closed=True):
    """Hot pixels: every vertex and every crossing, sorted, once each."""
    def harness(M, x):
        rings = case['rings'](x)
        ms = M.minimums()
        segs = []
        for pts, kind in rings:
            lr = M.ring(pts, closed)
            ms.add_linear_ring(lr, M.polygon_kind(kind))
            segs.extend(ends(e) for e in lr.edges)
        m = M.RingManager()
        m.build_hot_pixels(ms)
        got = [xy(p) for p in m.hot_pixels]
        for p, q in zip(got, got[1:]):
            require(p[1] > q[1] or p[1] == q[1] and p[0] < q[0],
                    'hot pixels %s and %s out of order', p, q)
        vertices, crossings = [], []
        for a, b in segs:
            for p in (a, b):
                if not any(same(p, q) for q in vertices):
                    vertices.append(p)
        for i in range(len(segs)):
            for j in range(i):
                p = crossing(segs[i], segs[j])
                if p is not None:
                    crossings.append(p)
        for p in vertices:
            require(any(same(p, q) for q in got),
                    'vertex %s is not a hot pixel', p)
        for p in crossings:
            # the one which is it here; another one might be it elsewhere
            q = min(got, key=lambda q: max(abs(peek(p[0]) - peek(q[0])),
                                           abs(peek(p[1]) - peek(q[1]))))
            require(rounds(p, q), 'crossing %s is not a hot pixel', p)
        for q in got:
            require(any(same(p, q) for p in vertices)
                    or any(rounds(p, q) for p in crossings
                           if abs(peek(p[0]) - peek(q[0])) < 2
                           and abs(peek(p[1]) - peek(q[1])) < 2),
                    'hot pixel %s is neither a vertex nor a crossing', q)
        return got
    return harness


def peek(v):
    return float(v.v if isinstance(v, S.Sym) else v)


def rounds(p, q):
    """Is q the point p with its coordinates rounded (either way halfway)?"""
    return all(le(abs(2 * (exact(u) - exact(v))), 1) for u, v in zip(p, q))


def crossing(s, t):
    """Where two segments cross."""
    (a, b), (c, d) = s, t
    dx, dy = b[0] - a[0], b[1] - a[1]
    ex, ey = d[0] - c[0], d[1] - c[1]
    den = dx * ey - dy * ex
    if den == 0:
        return None
    n1 = (c[0] - a[0]) * ey - (c[1] - a[1]) * ex
    n2 = (c[0] - a[0]) * dy - (c[1] - a[1]) * dx
    if den < 0:
        n1, n2, den = -n1, -n2, -den
    if n1 < 0 or n1 > den or n2 < 0 or n2 > den:
        return None
    # the ratio is a number or the divisor one on the cases used
    return a[0] + exact(n1 * dx) / den, a[1] + exact(n1 * dy) / den


def h_again(case, op, fills, again, closed=True):
    """A result given back as the input comes out unchanged."""
    def harness(M, x):
        w = fill_wagyu(M, case['rings'](x), False, closed)
        first = run_op(w, op, fills, M)
        v = M.Wagyu()
        for polygon in first:
            v.add_polygon(polygon, M.polygon_kind(again[1]))
        second = run_op(v, again[0], again[2], M)
        a, b = rows(first), rows(second)
        require(alike(a, b), 'result %s becomes %s', a, b)
        return a
    return harness


def alike(a, b):
    """Same polygons up to their order and the first vertices of rings."""
    if len(a) != len(b):
        return False
    left = list(b)
    for p in a:
        for i, q in enumerate(left):
            if same_polygon(p, q):
                del left[i]
                break
        else:
            return False
    return True


def same_polygon(p, q):
    if len(p) != len(q) or not same_ring(p[0], q[0]):
        return False
    left = list(q[1:])
    for r in p[1:]:
        for i, s in enumerate(left):
            if same_ring(r, s):
                del left[i]
                break
        else:
            return False
    return True


def same_ring(r, s):
    r, s = r[:-1], s[:-1]
    if len(r) != len(s):
        return False
    n = len(r)
    for k in range(n):
        if same(r[0], s[k]) and all(same(r[i], s[(k + i) % n])
                                    for i in range(1, n)):
            return True
    return False


def h_swap(case, op, fills, closed=True):
    """Subject and clip can be exchanged (but in a difference), and each of
    the operations agrees with the others through the set identities."""
    def harness(M, x):
        rings = case['rings'](x)
        w = fill_wagyu(M, rings, False, closed)
        v = fill_wagyu(M, [(p, 1 - k) for p, k in rings], False, closed)
        a = rows(run_op(w, op, fills, M))
        b = rows(run_op(v, op, fills[::-1], M))
        require(alike(a, b), 'subject and clip exchanged: %s becomes %s', a,
                b)
        return a
    return harness
