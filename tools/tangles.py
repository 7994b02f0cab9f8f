"""Chooses the kept tangles of symex/tangles.txt.

    python3-vt tools/tangles.py SECONDS [SEED]

Random tangles are run (concretely) through the port; kept are, for every
branch of the sweep that few of them take, the smallest ones that take it.
What is kept are only the *starting points* of jobs: the checks make lines,
lengths or positions of them symbols, follow the paths around them and decide
those by the solver (see cases.drawn_case).  Nothing here runs in a check.
"""
import os
import random
import sys
import time
from concurrent.futures import ProcessPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from symex import cases as K, checks_region as R, engine as E  # noqa: E402

FILES = ('ring_manager.py', 'ring.py', 'point_node.py', 'bound.py',
         'linear_ring.py', 'edge.py', 'local_minimum.py', 'point.py',
         'utils.py')
KINDS = {'rect': 3, 'oct': 3, 'tiny': 2}    # how often a branch is covered


def draw(kind, rnd):
    if kind == 'rect':
        k, m, n, ring = (rnd.choice([4, 5, 6, 8]), rnd.randint(1, 4),
                         rnd.choice([8, 14, 24]), K.rect_walk)
    elif kind == 'oct':
        k, m, n, ring = (rnd.choice([4, 5, 6, 8]), rnd.randint(1, 4),
                         rnd.choice([8, 12, 16]), K.oct_walk)
    else:
        k, m, n, ring = (rnd.choice([5, 8, 12]), rnd.randint(1, 4),
                         rnd.choice([6, 10, 14]), K.tiny_ring)
    return [(ring(rnd, k, rnd.randint(3, n)), rnd.randrange(2))
            for _ in range(m)]


def search(job):
    kind, op, seconds, seed = job
    sys.setrecursionlimit(4000)
    rnd = random.Random('%s%d%s' % (kind, op, seed))
    E.real()
    monitoring = sys.monitoring
    monitoring.use_tool_id(3, 'tangles')
    arcs, previous, skipped = set(), {}, set()

    def line(code, number):
        if code in skipped:
            return monitoring.DISABLE
        last = previous.get(code)
        if last is None:
            name = code.co_filename
            at = name.rfind('/wagyu/')
            if at < 0 or name[at + 7:] not in FILES:
                skipped.add(code)
                return monitoring.DISABLE
            last = previous[code] = [name[at + 7:], 0]
        arcs.add((last[0], last[1], number))
        last[1] = number

    monitoring.register_callback(3, monitoring.events.LINE, line)
    monitoring.set_events(3, monitoring.events.LINE)
    counts, examples, n, start = {}, {}, 0, time.time()
    while time.time() - start < seconds:
        walks = draw(kind, rnd)
        fills = R.random_fills(rnd, .3)
        scale = 1 if kind == 'tiny' else 2
        arcs.clear()
        for last in previous.values():
            last[1] = 0
        try:
            E.concrete_port([([(scale * x, scale * y) for x, y in ring], part)
                             for ring, part in walks], [(op,) + fills])
        except RuntimeError:
            continue
        n += 1
        size = sum(len(ring) for ring, _ in walks)
        for arc in arcs:
            counts[arc] = counts.get(arc, 0) + 1
            kept = examples.setdefault(arc, [])
            if len(kept) < 6 or size < kept[-1][0]:
                kept.append((size, n, walks, fills))
                kept.sort(key=lambda e: e[:2])
                del kept[6:]
    return kind, op, n, counts, examples


def choose(n, counts, examples, times):
    """A greedy cover of the rare branches, small tangles first."""
    need = {arc: min(times, c) for arc, c in counts.items() if c < n * .03}
    pool = {}
    for arc in need:
        for size, i, walks, fills in examples[arc]:
            pool.setdefault(i, (size, walks, fills, set()))[3].add(arc)
    while any(need.values()) and pool:
        i = max(pool, key=lambda i: sum(need[a] > 0 for a in pool[i][3])
                / (6 + pool[i][0]))
        _, walks, fills, taken = pool.pop(i)
        gained = [a for a in taken if need[a] > 0]
        if not gained:
            break
        for a in gained:
            need[a] -= 1
        yield walks, fills


def main():
    seconds = float(sys.argv[1])
    seed = sys.argv[2] if len(sys.argv) > 2 else '1'
    jobs = [(kind, op, seconds, seed) for kind in KINDS for op in range(4)]
    lines = []
    with ProcessPoolExecutor(8, max_tasks_per_child=1) as executor:
        for kind, op, n, counts, examples in executor.map(search, jobs):
            for walks, fills in choose(n, counts, examples, KINDS[kind]):
                lines.append('%s %d %d %d %s\n' % (
                    kind, op, *fills,
                    ';'.join('sc'[part] + ','.join('%d.%d' % tuple(p)
                                                   for p in ring)
                             for ring, part in walks)))
    with open(os.path.join(os.path.dirname(K.__file__), 'tangles.txt'),
              'w') as file:
        file.writelines(lines)
    print(len(lines))


if __name__ == '__main__':
    main()
