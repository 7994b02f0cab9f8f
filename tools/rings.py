"""Chooses the kept rings of symex/rings.txt.

    /opt/venv/bin/python tools/rings.py SECONDS [SEED]

Random small rings are split (concretely) by the port; kept are, for every
short sequence of lines of the functions concerned, the smallest rings which
go through it.  What is kept are only the *starting points* of jobs: the
checks make the coordinates of them symbols, follow the paths around them and
decide those by the solver (see checks_api.ring_jobs).  Nothing here runs in a
check.
"""
import os
import random
import sys
import time
from multiprocessing import Pool

sys.dont_write_bytecode = True
REPO = os.environ.get('WAGYU_REPO', '/repo')
sys.path.insert(0, REPO)
FILES = ('linear_ring.py', 'local_minimum.py', 'bound.py')
EACH = 3                        # rings for a sequence of lines


def draw(rnd):
    k, n = rnd.choice([2, 3, 3, 4, 5]), rnd.randint(3, rnd.choice([6, 9]))
    r = rnd.random()
    out = [(rnd.randrange(k), rnd.randrange(k))]
    while len(out) < n:
        a, b = out[-1]
        if r < 0.4:
            out.append((rnd.randrange(k), rnd.randrange(k)))
        elif r < 0.7:
            out.append(rnd.choice([(rnd.randrange(k), b),
                                   (a, rnd.randrange(k))]))
        else:
            s, (dx, dy) = rnd.randint(-2, 2), rnd.choice(
                    [(1, 0), (0, 1), (1, 1), (1, -1)])
            out.append((a + s * dx, b + s * dy))
    if rnd.random() < 0.3:
        out.append(out[0])
    return out


def search(job):
    seconds, seed = job
    from wagyu.enums import PolygonKind
    from wagyu.linear_ring import LinearRing
    from wagyu.local_minimum import LocalMinimumList
    from wagyu.point import Point
    rnd = random.Random(seed)
    best, seen = {}, set()
    lengths = {'linear_ring.py': 10, 'local_minimum.py': 4, 'bound.py': 6}

    def trace(frame, event, arg):
        name = frame.f_code.co_filename
        at = name.rfind('/wagyu/')
        if at < 0 or name[at + 7:] not in FILES or frame.f_code.co_name in (
                '__init__', '__getitem__', '__len__', '__eq__'):
            return None
        last = [frame.f_code.co_name]
        n = lengths[name[at + 7:]]

        def line(frame, event, arg):
            if event == 'line':
                last.append(frame.f_lineno)
                seen.add((name[at + 7:],) + tuple(last[-n:]))
            return line
        return line
    start = time.time()
    while time.time() - start < seconds:
        ring = draw(rnd)
        seen.clear()
        points = [Point(*p) for p in ring]
        sys.settrace(trace)
        try:
            LocalMinimumList().add_linear_ring(LinearRing(points),
                                               PolygonKind.SUBJECT)
        finally:
            sys.settrace(None)
        size = len(ring), sum(abs(a) + abs(b) for a, b in ring), ring
        for f in seen:
            some = best.setdefault(f, [])
            if size not in some and (len(some) < EACH or size < some[-1]):
                some.append(size)
                some.sort()
                del some[EACH:]
    return best


def main():
    seconds = float(sys.argv[1])
    seed = int(sys.argv[2]) if len(sys.argv) > 2 else 1
    best = {}
    with Pool(8) as pool:
        for part in pool.imap_unordered(search, [(seconds, seed * 100 + i)
                                                 for i in range(8)]):
            for f, some in part.items():
                best.setdefault(f, []).extend(
                        s for s in some if s not in best.get(f, ()))
    kept = set()
    for f, some in sorted(best.items(), key=lambda t: (len(t[1]), str(t))):
        some.sort()
        short = [tuple(s[2]) for s in some[:EACH]]
        for s in short:
            if sum(t in kept for t in short) < 2:
                kept.add(s)
    for ring in sorted(kept, key=lambda r: (len(r), r)):
        print(','.join('%d.%d' % p for p in ring))
    print(len(best), 'sequences', len(kept), 'rings', file=sys.stderr)


if __name__ == '__main__':
    main()
