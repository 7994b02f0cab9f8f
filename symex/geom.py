"""Region oracle: winding numbers at a symbolic probe point, as z3 formulas.

Independent of the code under test: it only uses the definition of winding
number (signed crossings of a rightward ray) and of the set operations.
"""
from fractions import Fraction

import z3

from . import poly as P
from . import sym as S
from .explore import den_of, zmask, zpoly

EVEN_ODD, NON_ZERO, POSITIVE, NEGATIVE = range(4)
INTERSECTION, UNION, DIFFERENCE, XOR = range(4)
FILLS = ('even_odd', 'non_zero', 'positive', 'negative')
OPS = ('intersect', 'unite', 'subtract', 'symmetric_subtract')
# probe lattice offset: never on a line with small rational slope through
# integer points
PX, PY, PS = 7, 3, 21
FAR = 4         # distance from the input edges where snapping cannot matter


class Undecided(Exception):
    """The oracle cannot express this path (counted, not a violation)."""


def as_sym(v):
    s = S.lift(v)
    if s is None or s.d is not None:
        raise Undecided('coordinate %r' % (v,))
    return s


def pt(p):
    return as_sym(p[0]).n, as_sym(p[1]).n


def znonzero(p):
    """p != 0 as a formula, through known factors."""
    if not p:
        return z3.BoolVal(False)
    if P.is_const(p):
        return z3.BoolVal(True)
    return z3.And([zmask(f, S.NE) for f in P.factors(P.canon(p)[0])])


def zpositive(p):
    if not p:
        return z3.BoolVal(False)
    if P.is_const(p):
        return z3.BoolVal(P.const_value(p) > 0)
    key, s, _ = P.canon(p)
    fs = P.factors(key)
    if len(fs) == 1:
        return zmask(key, S.GT if s > 0 else S.LT)
    odd = z3.BoolVal(s < 0)
    for f in fs:
        odd = z3.Xor(odd, zmask(f, S.LT))
    return z3.And([zmask(f, S.NE) for f in fs] + [z3.Not(odd)])


def zlin(p, mask):
    """sign(p) in mask, for any polynomial with rational coefficients."""
    if not p:
        return z3.BoolVal(bool(mask & 2))
    if P.is_const(p):
        c = P.const_value(p)
        return z3.BoolVal(bool(mask & (4 if c > 0 else 1)))
    key, s, _ = P.canon(p)
    if s < 0:
        mask = (mask & 2) | ((mask & 1) << 2) | ((mask & 4) >> 2)
    return zmask(key, mask)


def slope(dx, dy):
    """(p, q), q >= 0, coprime, parallel to the constant vector."""
    if not dx and not dy:
        return 0, 0
    if not dy:
        return 1, 0
    f = Fraction(dx) / Fraction(dy)
    return f.numerator, f.denominator


class Probe:
    def __init__(self, tag=''):
        self.kx = z3.Int('probe_x' + tag)
        self.ky = z3.Int('probe_y' + tag)
        self.x = PS * self.kx + PX      # scaled by PS
        self.y = PS * self.ky + PY

    def at(self, model):
        return [model.eval(self.x, True).as_long(),
                model.eval(self.y, True).as_long()]


def zint(n, scale):
    """scale * n as z3 expression (n polynomial, maybe fractional)."""
    d = den_of(n)
    if scale % d:
        raise Undecided('denominator')
    return zpoly(P.scale(n, scale)) if n else z3.IntVal(0)


class PathOracle:
    """Statements about inputs and outputs of one explored path."""

    def __init__(self, ex, solver, ctx, rings, exact):
        self.ex = ex
        self.solver = solver
        self.ctx = ctx
        self.exact = exact
        self.rings = rings
        self.pts = [([pt(p) for p in r], k) for r, k in rings]
        self._dirs = {}
        self.segments = None

    def proved(self, bad):
        return self.ex.check(self.solver, bad) == z3.unsat

    def value(self, p):
        return Fraction(P.evaluate(p, self.ctx.values))

    def constant_direction(self, a, b):
        dx, dy = P.sub(b[0], a[0]), P.sub(b[1], a[1])
        if bool(dx) != bool(dy):
            return (1, 0) if dx else (0, 1)
        p, q = slope(self.value(dx), self.value(dy))
        if not p and not q:
            if (dx or dy) and not self.proved(z3.Or(
                    [zlin(d, S.NE) for d in (dx, dy) if d])):
                return None
            return 0, 0
        r = P.sub(P.scale(dx, q), P.scale(dy, p))
        if r and not self.proved(zlin(r, S.NE)):
            return None
        return p, q

    def input_segments(self):
        if self.segments is None:
            out = []
            for r, _ in self.pts:
                for i in range(len(r)):
                    a, b = r[i], r[(i + 1) % len(r)]
                    d = self.constant_direction(a, b)
                    if d is None:
                        raise Undecided('input direction')
                    if d != (0, 0):
                        out.append((a, b, d))
            self.segments = out
        return self.segments

    def off_segment(self, v, seg, tol):
        """[polynomials which must be >= 0 for v to be near the segment]"""
        a, b, (p, q) = seg
        t = P.const(tol)
        out = []
        for c in (0, 1):
            lo, hi = (a[c], b[c])
            if self.value(lo) > self.value(hi):
                lo, hi = hi, lo
            if not self._ordered(lo, hi):
                raise Undecided('segment order')
            out.append(P.add(P.sub(v[c], lo), t))
            out.append(P.add(P.sub(hi, v[c]), t))
        w = P.add(P.scale(P.sub(a[0], v[0]), q),
                  P.scale(P.sub(v[1], a[1]), p))
        m = P.const(tol * (abs(p) + abs(q)))
        out.append(P.add(m, w))
        out.append(P.sub(m, w))
        return out

    def _ordered(self, lo, hi):
        r = P.sub(hi, lo)
        return (not r or P.is_const(r) and P.const_value(r) >= 0
                or self.proved(zlin(r, S.LT)))

    def near_direction(self, a, b):
        for seg in self.input_segments():
            conds = self.off_segment(a, seg, 1) + self.off_segment(b, seg, 1)
            if all(self.value(c) >= 0 for c in conds):
                if self.proved(z3.Or([zlin(c, S.LT) for c in conds])):
                    return seg[2]
        return None

    def direction(self, a, b):
        key = (tuple(sorted(a[0].items())), tuple(sorted(a[1].items())),
               tuple(sorted(b[0].items())), tuple(sorted(b[1].items())))
        d = self._dirs.get(key)
        if d is None:
            d = self.constant_direction(a, b) if self.exact else None
            if d is None:
                d = self.near_direction(a, b)
                if d is None:
                    d = self.constant_direction(a, b)
                elif self.exact:
                    raise Undecided('direction')
            if d is None:
                raise Undecided('direction')
            self._dirs[key] = d
        return d

    def dirs(self, ring):
        n = len(ring)
        return [self.direction(ring[i], ring[(i + 1) % n]) for i in range(n)]

    def winding(self, probe, rings, dirs=None):
        """Winding number of closed vertex lists around the probe."""
        terms = []
        for k, ring in enumerate(rings):
            ds = self.dirs(ring) if dirs is None else dirs[k]
            n = len(ring)
            for i in range(n):
                a, b = ring[i], ring[(i + 1) % n]
                if a[1] == b[1]:
                    continue
                p, q = ds[i]
                ay, by = zint(a[1], PS), zint(b[1], PS)
                ax = zint(a[0], PS)
                if p == 0 or q == 0:
                    right = ax > probe.x
                else:
                    right = q * (ax - probe.x) + p * (probe.y - ay) > 0
                up = z3.And(ay < probe.y, probe.y < by, right)
                down = z3.And(by < probe.y, probe.y < ay, right)
                terms.append(z3.If(up, 1, z3.If(down, -1, 0)))
        return z3.Sum(terms) if terms else z3.IntVal(0)

    def far(self, probe):
        """The probe is at least FAR from every input edge."""
        out = []
        for a, b, (p, q) in self.input_segments():
            t = FAR * PS
            alt = []
            for c, x in ((0, probe.x), (1, probe.y)):
                lo, hi = a[c], b[c]
                if self.value(lo) > self.value(hi):
                    lo, hi = hi, lo
                alt.append(x < zint(lo, PS) - t)
                alt.append(x > zint(hi, PS) + t)
            w = (q * (zint(a[0], PS) - probe.x)
                 + p * (probe.y - zint(a[1], PS)))
            m = t * (abs(p) + abs(q))
            alt += [w > m, w < -m]
            out.append(z3.Or(alt))
        return z3.And(out) if out else z3.BoolVal(True)

    def input_membership(self, probe, fills):
        res = []
        for kind in (0, 1):
            rs = [r for r, k in self.pts if k == kind]
            ds = []
            for r in rs:
                row = []
                for i in range(len(r)):
                    d = self.constant_direction(r[i], r[(i + 1) % len(r)])
                    if d is None:
                        raise Undecided('input direction')
                    row.append(d)
                ds.append(row)
            res.append(inside(self.winding(probe, rs, ds), fills[kind]))
        return res

    def wrong_region(self, probe, out, op, fills, reverse, validity=True,
                     transform=None):
        """Formula: the probe shows the output to be wrong."""
        s, c = self.input_membership(probe, fills)
        expected = combine(op, s, c)
        polys = [[[pt(v) for v in ring[:-1]] for ring in polygon]
                 for polygon in out]
        each = [self.winding(probe, rs) for rs in polys]
        total = z3.Sum(each) if each else z3.IntVal(0)
        want = -1 if reverse else 1
        bad = [z3.If(expected, total != want, total != 0)]
        if validity:
            bad += [z3.And(e != 0, e != want) for e in each]
        f = z3.Or(bad)
        return f if self.exact else z3.And(self.far(probe), f)

    # -- vertices ------------------------------------------------------------
    def vertex_sources(self):
        """Input vertices and crossings of input edges, as rational points."""
        out = []
        seen = set()
        for r, _ in self.pts:
            for a in r:
                k = tuple(sorted(a[0].items())), tuple(sorted(a[1].items()))
                if k not in seen:
                    seen.add(k)
                    out.append((a, ()))
        segs = self.input_segments()
        for i in range(len(segs)):
            for j in range(i):
                a, _, (p1, q1) = segs[i]
                b, _, (p2, q2) = segs[j]
                det = p1 * q2 - p2 * q1
                if not det:
                    continue
                # a + s*(p1, q1) on the second line
                dx, dy = P.sub(b[0], a[0]), P.sub(b[1], a[1])
                s = P.scale(P.sub(P.scale(dx, q2), P.scale(dy, p2)),
                            Fraction(1, det))
                out.append(((P.add(a[0], P.scale(s, p1)),
                             P.add(a[1], P.scale(s, q1))),
                            (segs[i], segs[j])))
        return out

    def vertex_misplaced(self, out, tol=Fraction(501, 1000)):
        """First vertex of the output not provably within half a unit of an
        input vertex or of a crossing of two input edges:
        (vertex, whether even the witness is off) or None."""
        sources = None
        done = set()
        for polygon in out:
            for ring in polygon:
                for vertex in ring[:-1]:
                    v = pt(vertex)
                    key = (tuple(sorted(v[0].items())),
                           tuple(sorted(v[1].items())))
                    if key in done:
                        continue
                    done.add(key)
                    if sources is None:
                        sources = self.vertex_sources()
                    close = False
                    ok = False
                    for x, segs in sources:
                        conds = []
                        for c in (0, 1):
                            d = P.sub(v[c], x[c])
                            conds.append(P.sub(P.const(tol), d))
                            conds.append(P.add(P.const(tol), d))
                        for seg in segs:
                            conds += self.off_segment(
                                    x, seg, Fraction(1, 1000))[:4]
                        if all(self.value(c) >= 0 for c in conds):
                            close = True
                            if self.proved(z3.Or([zlin(c, S.LT)
                                                  for c in conds])):
                                ok = True
                                break
                    if not ok:
                        return v, not close
        return None


def inside(w, fill):
    if fill == EVEN_ODD:
        return w % 2 != 0
    if fill == NON_ZERO:
        return w != 0
    return w > 0 if fill == POSITIVE else w < 0


def combine(op, s, c):
    if op == INTERSECTION:
        return z3.And(s, c)
    if op == UNION:
        return z3.Or(s, c)
    if op == DIFFERENCE:
        return z3.And(s, z3.Not(c))
    return z3.Xor(s, c)


# -- the same, concretely -----------------------------------------------------
def c_winding(rings, px, py):
    w = 0
    for ring in rings:
        n = len(ring)
        for i in range(n):
            (ax, ay), (bx, by) = ring[i], ring[(i + 1) % n]
            if (ay < py) != (by < py):
                x = ax + Fraction(bx - ax) * (py - ay) / Fraction(by - ay)
                if x > px:
                    w += 1 if by > ay else -1
    return w


def c_inside(w, fill):
    return (w % 2 != 0 if fill == EVEN_ODD else w != 0 if fill == NON_ZERO
            else w > 0 if fill == POSITIVE else w < 0)


def c_combine(op, s, c):
    return ((s and c) if op == 0 else (s or c) if op == 1
            else (s and not c) if op == 2 else s != c)


def c_structural(out, reverse=False):
    """Problems of the output which do not depend on the input, or None."""
    for polygon in out:
        if not len(polygon):
            return 'polygon without rings'
        for k, ring in enumerate(polygon):
            if len(ring) < 4:
                return 'ring with less than 3 distinct vertices: %r' % (ring,)
            if ring[0] != ring[-1]:
                return 'ring is not closed: %r' % (ring,)
            for a, b in zip(ring, ring[1:]):
                if a == b:
                    return 'repeated vertex in %r' % (ring,)
            for x, y in ring:
                if x != int(x) or y != int(y):
                    return 'vertex off the integer grid: %r' % ((x, y),)
            area = sum(Fraction(a[0]) * Fraction(b[1])
                       - Fraction(b[0]) * Fraction(a[1])
                       for a, b in zip(ring, ring[1:]))
            if not area:
                return 'ring of no area: %r' % (ring,)
            if (area > 0) != ((k == 0) != reverse):
                return 'ring %d of a polygon has wrong orientation: %r' % (
                    k, ring)
    return None


def zstructural(out, reverse):
    """Formula: some ring of the output is malformed (see c_structural)."""
    bad = []
    for polygon in out:
        if not polygon:
            return z3.BoolVal(True)
        for k, ring in enumerate(polygon):
            if len(ring) < 4:
                return z3.BoolVal(True)
            pts = [pt(v) for v in ring]
            for c in (0, 1):
                bad.append(znonzero(P.sub(pts[0][c], pts[-1][c])))
            area = {}
            for a, b in zip(pts, pts[1:]):
                dx, dy = P.sub(a[0], b[0]), P.sub(a[1], b[1])
                bad.append(z3.Not(z3.Or(znonzero(dx), znonzero(dy))))
                area = P.add(area, P.sub(P.mul(a[0], b[1]),
                                         P.mul(b[0], a[1])))
            if (k == 0) == reverse:
                area = P.neg(area)
            bad.append(z3.Not(zpositive(area)))
            for a in pts:
                for c in a:
                    d = den_of(c)
                    if d != 1:
                        bad.append(zpoly(P.scale(c, d)) % d != 0)
    bad = [b for b in map(z3.simplify, bad) if not z3.is_false(b)]
    return z3.Or(bad) if bad else None


def region_mismatch(rings, out, op, fills, reverse, px, py, validity=True):
    s = c_inside(c_winding([r for r, k in rings if k == 0], px, py), fills[0])
    c = c_inside(c_winding([r for r, k in rings if k == 1], px, py), fills[1])
    expected = c_combine(op, s, c)
    want = -1 if reverse else 1
    each = [c_winding([r[:-1] for r in polygon], px, py) for polygon in out]
    if sum(each) != (want if expected else 0):
        return 'winding number of the output at (%s, %s) is %d, expected %d' \
            % (px, py, sum(each), want if expected else 0)
    if validity and any(e not in (0, want) for e in each):
        return 'a polygon of the output has winding numbers %r at (%s, %s)' \
            % (each, px, py)
    return None


def c_far(rings, px, py):
    for r, _ in rings:
        for i in range(len(r)):
            (ax, ay), (bx, by) = r[i], r[(i + 1) % len(r)]
            if (px < min(ax, bx) - FAR or px > max(ax, bx) + FAR
                    or py < min(ay, by) - FAR or py > max(ay, by) + FAR):
                continue
            p, q = slope(bx - ax, by - ay)
            if abs(q * (ax - px) + p * (py - ay)) <= FAR * (abs(p) + abs(q)):
                return False
    return True


def c_probes(rings, limit=400):
    """Probe points of the lattice around vertices and between coordinates."""
    xs = sorted({p[0] for r, _ in rings for p in r})
    ys = sorted({p[1] for r, _ in rings for p in r})
    fx, fy = Fraction(PX, PS), Fraction(PY, PS)

    def spread(vals):
        out = set()
        for a in vals:
            out.update((a, a - 1))
        for a, b in zip(vals, vals[1:]):
            out.add((a + b) // 2)
        return sorted(out)
    gx, gy = spread(xs), spread(ys)
    pts = [(x + fx, y + fy) for x in gx for y in gy]
    if len(pts) > limit:
        step = len(pts) // limit + 1
        pts = pts[::step]
    return pts


def c_region(rings, out, op, fills, reverse, exact, validity=True):
    """Concrete region check at many probes; used for single witnesses."""
    for px, py in c_probes(rings):
        if not exact and not c_far(rings, px, py):
            continue
        t = region_mismatch(rings, out, op, fills, reverse, px, py, validity)
        if t:
            return t
    return None


def c_vertices(rings, out, tol=Fraction(501, 1000)):
    """A vertex not within half a unit of an input vertex or crossing."""
    pts = {p for r, _ in rings for p in r}
    segs = [(r[i], r[(i + 1) % len(r)]) for r, _ in rings
            for i in range(len(r)) if r[i] != r[(i + 1) % len(r)]]
    cross = set()
    e = Fraction(1, 1000)
    for i, (a, b) in enumerate(segs):
        for c, d in segs[:i]:
            ux, uy, vx, vy = b[0] - a[0], b[1] - a[1], d[0] - c[0], d[1] - c[1]
            det = ux * vy - uy * vx
            if not det:
                continue
            s = Fraction((c[0] - a[0]) * vy - (c[1] - a[1]) * vx, det)
            t = Fraction((c[0] - a[0]) * uy - (c[1] - a[1]) * ux, det)
            if -e <= s <= 1 + e and -e <= t <= 1 + e:
                cross.add((a[0] + s * ux, a[1] + s * uy))
    for polygon in out:
        for ring in polygon:
            for x, y in ring:
                if (x, y) in pts:
                    continue
                if not any(abs(x - a) <= tol and abs(y - b) <= tol
                           for a, b in cross):
                    if not any(abs(x - a) <= tol and abs(y - b) <= tol
                               for a, b in pts):
                        return ('vertex (%s, %s) is not within half a unit of'
                                ' an input vertex or crossing' % (x, y))
    return None
