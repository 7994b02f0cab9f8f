"""Writes properties.jsonl."""
import json
import os

W = 'wagyu/'
N = 'include/mapbox/geometry/wagyu/'
RM = W + 'ring_manager.py'
SWEEP = [(RM + ' RingManager.execute_vatti', 'sweep'),
         (RM + ' RingManager.intersect_bounds', 'effect of a crossing'),
         (N + 'vatti.hpp execute_vatti', 'sweep (C++)'),
         (N + 'intersect_util.hpp intersect_bounds',
          'effect of a crossing (C++)')]
TOPO = [(RM + ' RingManager.correct_topology', 'repair of the rings'),
        (N + 'topology_correction.hpp correct_topology',
         'repair of the rings (C++)')]
SWEEP_FILES = [W + 'wagyu.py', RM, W + 'bound.py', W + 'edge.py',
               W + 'local_minimum.py', W + 'linear_ring.py', W + 'ring.py',
               W + 'point_node.py', W + 'intersect_node.py', W + 'polygon.py',
               'src/main.cpp', N]
BOTH = ' This holds for the Python package and for the C++ extension alike.'
PROPS = []


def prop(id_, title, statement, over, text, why, files, mechanism,
         observe, state=()):
    PROPS.append(dict(
        id=id_, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w)
                                             for w, n in mechanism],
                     state=[dict(name=n, meaning=m, where=w)
                            for n, m, w in state],
                     observe_at=observe, hook_needed=None)))


OPS = (('C01', 'intersect', 'the points inside the subject and inside the '
        'clip', 'intersection'),
       ('C02', 'unite', 'the points inside the subject or inside the clip or '
        'both', 'union'),
       ('C03', 'subtract', 'the points inside the subject and not inside the '
        'clip', 'difference'),
       ('C04', 'symmetric_subtract', 'the points inside exactly one of the '
        'subject and the clip', 'symmetric difference'))
for id_, name, what, noun in OPS:
    prop(id_, '%s() returns the %s of the two inputs' % (name, noun),
         'For all integer rings added as subject and as clip, %s() returns '
         'polygons covering exactly %s, where being inside is decided by the '
         'winding number and the fill kind given. Where edges cross at points '
         'with fractional coordinates, the boundary may move by rounding only '
         '(about one unit), and never further.' % (name, what) + BOTH,
         ['inputs', 'configurations'],
         'all sets of integer subject and clip rings, any number, any '
         'relative position, all pairs of fill kinds, with and without '
         'reverse_output',
         'The tests check a few algebraic identities and that both '
         'implementations agree on random samples; neither compares the '
         'result with the region it should cover, and a defect present in '
         'both goes unseen.',
         SWEEP_FILES,
         SWEEP + TOPO + [(W + 'bound.py Bound.is_contributing',
                          'which edges bound the result')],
         ['Wagyu.%s in wagyu.wagyu and in _wagyu' % name],
         [('active bounds', 'edges met by the sweep line, in order, with '
           'winding counts', RM)])

prop('C05', 'Each fill kind selects the region by its winding number rule',
     'With EVEN_ODD a point is inside when the rings of its kind wind around '
     'it an odd number of times, with NON_ZERO when the number is not zero, '
     'with POSITIVE when it is above zero and with NEGATIVE when it is below '
     'zero. The rules of the subject and of the clip are independent, and '
     'overlapping, nested, repeated, reversed and self-crossing rings follow '
     'them in every operation.' + BOTH,
     ['inputs', 'configurations'],
     'all 16 pairs of fill kinds, all operations, all arrangements of '
     'overlapping rings of both directions',
     'Tests draw fill kinds at random but assert nothing about which region '
     'they select.',
     SWEEP_FILES,
     [(W + 'bound.py set_winding_count', 'winding counts'),
      (W + 'bound.py Bound.is_contributing', 'fill rules'),
      (RM + ' RingManager.intersect_bounds', 'counts exchanged at crossings'),
      (N + 'active_bound_list.hpp set_winding_count', 'winding counts (C++)'),
      (N + 'intersect_util.hpp intersect_bounds',
       'counts exchanged at crossings (C++)')],
     ['Wagyu.intersect, unite, subtract, symmetric_subtract'])
prop('C06', 'Results are valid polygons: closed, oriented, nested, disjoint',
     'Every ring of every result is closed, has at least three distinct '
     'vertices, non-zero area, no two equal consecutive vertices and integer '
     'coordinates; the first ring of a polygon runs one way and its holes the '
     'other. Holes lie within their outer ring, no two polygons of a result '
     'overlap, and holes of one polygon do not overlap.' + BOTH,
     ['inputs', 'configurations'],
     'all results of all operations with all fill kinds over integer rings',
     'Tests check types and emptiness of results, not the topology of the '
     'rings; the repairs which provide it only act on rare configurations.',
     SWEEP_FILES,
     TOPO + [(RM + ' RingManager.correct_orientations', 'orientation'),
             (RM + ' RingManager.correct_tree', 'nesting'),
             (W + 'polygon.py rings_to_polygons', 'assembly of the result'),
             (N + 'build_result.hpp build_result',
              'assembly of the result (C++)')],
     ['the multipolygon returned by an operation'])
prop('C07', 'reverse_output only reverses the direction of every ring',
     'The same sequence of calls with reverse_output on and off gives the '
     'same polygons with the same rings, each ring running in the opposite '
     'direction, so that outer rings and holes swap their orientation and '
     'the covered region does not change.' + BOTH,
     ['inputs', 'configurations'],
     'all inputs, operations and fill kinds, both values of the flag',
     'Tests pass the flag through at random and compare implementations, '
     'which share the rule.',
     [W + 'wagyu.py', W + 'polygon.py', RM, 'src/main.cpp',
      N + 'build_result.hpp', N + 'wagyu.hpp'],
     [(W + 'polygon.py point_node_to_linear_ring', 'direction'),
      (RM + ' RingManager.build_result', 'flag passed on'),
      (N + 'build_result.hpp push_ring_to_polygon', 'direction (C++)')],
     ['Wagyu(reverse_output=...).intersect() etc.'])
prop('C08', 'Operations do not disturb the object: calls are repeatable',
     'An operation leaves the added rings, the bounds and every object passed '
     'in as they were, so any later operation, or the same one again, gives '
     'the same result as on a fresh object with the same rings. Adding more '
     'rings, asking for bounds and clearing, in any order between operations, '
     'have the effect they would have on a fresh object.' + BOTH,
     ['histories', 'inputs'],
     'all sequences of adding, clearing, asking for bounds and operating on '
     'one object, with all integer rings',
     'Tests run one operation on a new object; no test repeats or mixes '
     'operations on one.',
     [W + 'wagyu.py', W + 'local_minimum.py', W + 'bound.py', RM,
      'src/main.cpp', N + 'wagyu.hpp', N + 'local_minimum_util.hpp'],
     [(W + 'wagyu.py Wagyu.execute', 'rebuilds the state of the sweep'),
      (W + 'local_minimum.py LocalMinimum.initialize', 'resets a bound'),
      (N + 'local_minimum_util.hpp initialize_lm', 'resets a bound (C++)')],
     ['results of consecutive operations; equality of the object before and '
      'after'],
     [('minimums', 'bounds built from the added rings', W + 'wagyu.py')])
prop('C09', 'Results do not depend on how the same rings are written down',
     'The region returned does not change when a ring starts at another '
     'vertex, repeats vertices, gets vertices on its edges, is given with or '
     'without the repeated last vertex, or when rings are added in another '
     'order. Under EVEN_ODD any ring may be reversed and under NON_ZERO all '
     'rings of a kind together.' + BOTH,
     ['inputs', 'programs'],
     'all integer rings and all rewritings of them of these kinds, all '
     'operations and fill kinds',
     'No test relates two ways of writing the same input.',
     [W + 'linear_ring.py', W + 'local_minimum.py', W + 'wagyu.py',
      N + 'build_edges.hpp', N + 'build_local_minima_list.hpp'],
     [(W + 'linear_ring.py LinearRing.edges', 'edges of a ring'),
      (W + 'local_minimum.py to_local_maximum_index', 'start of the chains'),
      (N + 'build_edges.hpp build_edge_list', 'edges of a ring (C++)')],
     ['Wagyu.intersect, unite, subtract, symmetric_subtract'])
prop('C10', 'The Python port follows the C++ library step by step',
     'On the same rings, operation and fill kinds, the Python package and the '
     'C++ extension accept the same rings and return equal polygons with '
     'equal vertices in the same order, and the state of the computation is '
     'the same after every stage: points where edges meet, sweep, repair of '
     'orientation, collinear edges, self-intersections and nesting.',
     ['inputs', 'configurations'],
     'all integer rings, all operations and fill kinds, all stages',
     'Integration tests compare both on random samples mostly free of the '
     'rare configurations, and never at all stages of one computation.',
     SWEEP_FILES,
     [(RM + ' RingManager.execute_vatti', 'sweep'),
      (RM + ' RingManager.correct_topology', 'stages of the repair'),
      ('src/main.cpp', 'exposes the same stages of the C++ library')] + SWEEP,
     ['RingManager in wagyu.ring_manager and in _wagyu after every stage'])
prop('C11', 'Rings without area are refused or harmless',
     'Adding a ring with fewer than three distinct points, or all on one '
     'line so that it has no edges to sweep, returns False and changes '
     'nothing; adding a polygon returns whether any of its rings was taken. '
     'No degenerate ring, taken or refused, changes the region of any '
     'result.' + BOTH,
     ['inputs', 'histories'],
     'all degenerate rings among all proper ones, all operations',
     'Tests add valid rings only, with a few empty ones.',
     [W + 'local_minimum.py', W + 'linear_ring.py', W + 'wagyu.py',
      N + 'build_edges.hpp', N + 'local_minimum_util.hpp', N + 'wagyu.hpp',
      'src/main.cpp'],
     [(W + 'local_minimum.py LocalMinimumList.add_linear_ring',
       'tells whether a ring was taken'),
      (N + 'wagyu.hpp add_ring', 'the same (C++)')],
     ['return values of Wagyu.add_linear_ring and Wagyu.add_polygon'])
prop('C12', 'Edges of a ring trace its boundary with spikes removed',
     'The edges of a ring form a closed walk along the ring, without '
     'zero-length edges, repeated vertices, collinear neighbours or spikes, '
     'which encloses every point with the winding number of the ring. A ring '
     'without area has no edges, and closing the ring explicitly makes no '
     'difference.' + BOTH,
     ['inputs'], 'all rings of any integer points',
     'Tests assert types and lengths on random rings.',
     [W + 'linear_ring.py', W + 'edge.py', W + 'point.py',
      N + 'build_edges.hpp', N + 'edge.hpp'],
     [(W + 'linear_ring.py LinearRing.edges', 'edges'),
      (W + 'point.py are_points_slopes_equal', 'collinearity'),
      (N + 'build_edges.hpp build_edge_list', 'edges (C++)'),
      (N + 'build_edges.hpp point_2_is_between_point_1_and_point_3',
       'spikes (C++)')],
     ['LinearRing.edges; bounds of LocalMinimumList'])
prop('C13', 'Rings are split into monotone bounds meeting at local minima',
     'Adding a ring splits all its edges, each exactly once, into pairs of '
     'chains which go up from one local minimum to local maxima with their '
     'edges connected and in order, left chain on the left, with opposite '
     'winding deltas giving the direction of the ring, and with every height '
     'where an edge ends among the scanbeams.' + BOTH,
     ['inputs'], 'all rings of integer points, with horizontal edges '
     'anywhere',
     'Tests check list lengths and types on random rings.',
     [W + 'local_minimum.py', W + 'bound.py',
      N + 'build_local_minima_list.hpp', N + 'local_minimum_util.hpp'],
     [(W + 'local_minimum.py LocalMinimumList.add_linear_ring', 'split'),
      (W + 'bound.py create_bound_towards_maximum', 'chains'),
      (W + 'bound.py create_bound_towards_minimum', 'chains'),
      (N + 'local_minimum_util.hpp add_linear_ring', 'split (C++)')],
     ['LocalMinimumList after add_linear_ring'],
     [('scanbeams', 'heights where the sweep stops', W +
       'local_minimum.py')])
prop('C14', 'Edges, points and boxes answer geometric questions exactly',
     'An edge knows its lower end, its slope, whether it is horizontal, its '
     'abscissa at a height and the range of abscissas it covers in a row of '
     'pixels; two edges cross exactly when they share an interior point, '
     'which is returned. Points are rounded half up, three points tell '
     'whether they are on one line and whether the second is between the '
     'others, and a box tells whether it is within another.' + BOTH,
     ['inputs'], 'all edges between integer points, all heights within them, '
     'all pairs of edges, all points, all boxes',
     'Tests compare both implementations on random samples; coincident and '
     'touching cases are rarely drawn.',
     [W + 'edge.py', W + 'point.py', W + 'box.py', N + 'edge.hpp',
      N + 'intersect_util.hpp', N + 'ring_util.hpp', 'src/main.cpp'],
     [(W + 'edge.py Edge.__and__', 'crossing'),
      (W + 'edge.py Edge.get_min_x', 'range in a row'),
      (W + 'edge.py Edge.get_max_x', 'range in a row'),
      (W + 'box.py Box.inside_of', 'boxes'),
      (N + 'edge.hpp get_edge_min_x', 'range in a row (C++)'),
      (N + 'intersect_util.hpp get_edge_intersection', 'crossing (C++)')],
     ['methods of Edge, Point and Box'])
prop('C15', 'Tolerant comparisons and roundings are right for every double',
     'Two numbers count as equal exactly when at most four representable '
     'steps apart (with both zeros one point and the sign change passed '
     'through zero), the tolerant orderings are the strict ones with equality '
     'so defined, and never contradict each other. Rounding half up, towards '
     'the minimum and towards the maximum give the integer their names say, '
     'with values within tolerance of a half treated as that half.' + BOTH,
     ['inputs'], 'all finite and infinite doubles for comparisons, all '
     'doubles below 2**51 in magnitude for roundings',
     'No sample of doubles reaches the boundaries of the tolerance around '
     'zero, halves and powers of two.',
     [W + 'utils.py', N + 'almost_equal.hpp', N + 'util.hpp'],
     [(W + 'utils.py are_floats_almost_equal', 'comparison'),
      (W + 'utils.py round_half_up', 'rounding'),
      (N + 'almost_equal.hpp FloatingPoint::AlmostEquals',
       'comparison (C++)'),
      (N + 'util.hpp wround, round_towards_min, round_towards_max',
       'rounding (C++)')],
     ['the functions of wagyu.utils; the C++ helpers'])
prop('C16', 'Rings know their area, box, lowest point, nesting and contents',
     'A ring of the computation reports its signed area, its number of '
     'vertices, its bounding box and its bottom vertex as its vertices '
     'define them; passing the bottom twice, it is at the passage with the '
     'flattest edge. Of two rings the lower one is that whose bottom is '
     'lower, else further left, else has the flattest edge. Whether a point is inside, outside or on a ring, and '
     'whether a ring without crossings lies within another, is answered '
     'correctly.' + BOTH,
     ['inputs'], 'all rings of integer vertices, all points, all pairs of '
     'rings whose edges do not cross',
     'Tests compare both implementations on random rings, few of them '
     'nested or touching.',
     [W + 'point_node.py', W + 'ring.py', N + 'ring_util.hpp',
      N + 'ring.hpp', 'src/main.cpp'],
     [(W + 'point_node.py point_in_polygon', 'location'),
      (W + 'point_node.py PointNode.bottom_node', 'lowest vertex'),
      (W + 'point_node.py PointNode.stats', 'area, size and box'),
      (W + 'ring.py Ring.inside_of', 'nesting'),
      (N + 'ring_util.hpp poly2_contains_poly1', 'nesting (C++)')],
     ['Ring and PointNode'])
prop('C19', 'Winding counts on the sweep line are sums of directions',
     'For every set of edges met by the sweep line, the winding counts '
     'computed for an edge equal the number of times the rings of its kind '
     'and of the other kind wind around the points beside it, under every '
     'fill kind. An edge counts as contributing exactly when the result of '
     'the operation is on one side of it only.' + BOTH,
     ['inputs', 'configurations'],
     'all sequences of edges of both kinds and directions up to the bound, '
     'all fill kinds, all operations',
     'Tests compare both implementations on random bounds which are not a '
     'state of any sweep.',
     [W + 'bound.py', N + 'active_bound_list.hpp'],
     [(W + 'bound.py set_winding_count', 'counts'),
      (W + 'bound.py Bound.is_contributing', 'contribution'),
      (N + 'active_bound_list.hpp set_winding_count', 'counts (C++)'),
      (N + 'active_bound_list.hpp is_contributing', 'contribution (C++)')],
     ['Bound; set_winding_count'])
prop('C20', 'Points, rings and polygons are values and sequences',
     'Points, edges, boxes, rings, polygons and multipolygons are equal '
     'exactly when their parts are, and unequal otherwise; a copy, deep copy '
     'or pickle of one is equal to it. Rings, polygons and multipolygons are '
     'sequences: length, indexing, iteration and membership give the parts '
     'in order.' + BOTH,
     ['inputs'], 'all such objects with integer coordinates',
     'Tests sample equality on random objects, which hardly ever differ in '
     'one part only.',
     [W + 'point.py', W + 'edge.py', W + 'box.py', W + 'linear_ring.py',
      W + 'polygon.py', 'src/main.cpp'],
     [(W + 'point.py Point.__eq__', 'equality'),
      (W + 'polygon.py Multipolygon.__eq__', 'equality'),
      ('src/main.cpp PYBIND11_MODULE', 'equality, pickling and sequences')],
     ['operators on the classes of wagyu and _wagyu'])
prop('C21', 'Orders used by the sweep are total, and sorting sorts by them',
     'Sorting by adjacent swaps ends in the sorted order, reports exactly the '
     'swaps of out-of-order neighbours and is stable; local minima, '
     'crossings and points are ordered from the highest ordinate down with '
     'ties decided consistently. Searching, rotating and inserting without '
     'repetition do as they say.' + BOTH,
     ['inputs'], 'all sequences up to the bound of all values',
     'Tests sort random lists, with few ties.',
     [W + 'bubble_sort.py', W + 'utils.py', W + 'local_minimum.py',
      W + 'intersect_node.py', RM, N + 'bubble_sort.hpp',
      N + 'local_minimum.hpp', N + 'snap_rounding.hpp'],
     [(W + 'bubble_sort.py bubble_sort', 'sorting'),
      (W + 'local_minimum.py LocalMinimum.__lt__', 'order of minima'),
      (W + 'intersect_node.py IntersectNode.__lt__', 'order of crossings'),
      (RM + ' hot_pixels_compare', 'order of points'),
      (N + 'bubble_sort.hpp bubble_sort', 'sorting (C++)')],
     ['the functions and operators named'])
prop('C23', 'Every vertex and every crossing is found before the sweep',
     'The points collected before an operation are exactly the rounded '
     'vertices of the added rings and the rounded crossings of their edges, '
     'sorted from the top down and from left to right, without '
     'repetitions.' + BOTH,
     ['inputs'], 'all sets of integer rings',
     'Tests compare both implementations on random samples; neither is '
     'compared with the crossings.',
     [RM, W + 'intersect_node.py', W + 'bubble_sort.py',
      N + 'snap_rounding.hpp'],
     [(RM + ' RingManager.build_hot_pixels', 'collection'),
      (RM + ' RingManager.process_hot_pixel_intersections', 'crossings'),
      (N + 'snap_rounding.hpp build_hot_pixels', 'collection (C++)')],
     ['RingManager.hot_pixels after build_hot_pixels'],
     [('hot pixels', 'points which the edges passing by are bent to',
       RM)])
prop('C24', 'Every operation ends with a result',
     'Every operation on any added integer rings, with any fill kinds and '
     'in any sequence on one object, ends and returns a multipolygon: no '
     'exception, no crash, no endless loop, nothing left undone.' + BOTH,
     ['inputs', 'configurations', 'histories'],
     'all sets of integer rings, all operations, all fill kinds',
     'Tests sample inputs for which an operation ends; the failing ones are '
     'rare configurations.',
     SWEEP_FILES, SWEEP + TOPO + [
         (RM + ' RingManager.assign_new_ring_parents', 'nesting of new '
          'rings'), (RM + ' RingManager.append_ring', 'joining of rings')],
     ['Wagyu.intersect, unite, subtract, symmetric_subtract'])
prop('C27', 'Bounds are the box of what was added, and clear forgets it',
     'The bounds are the smallest box around the edges of all rings taken so '
     'far, and the box at the origin when there are none; asking for them '
     'changes nothing. Clearing makes the object equal to a new one, and '
     'operations on an empty object return an empty multipolygon.' + BOTH,
     ['inputs', 'histories'],
     'all sets of integer rings, before and after operations and clearing',
     'Tests check that bounds are a box around random rings of non-negative '
     'shape and compare both implementations, which shared a defect.',
     [W + 'wagyu.py', 'src/main.cpp', N + 'wagyu.hpp'],
     [(W + 'wagyu.py Wagyu.bounds', 'box'),
      (W + 'wagyu.py Wagyu.clear', 'clearing'),
      (N + 'wagyu.hpp get_bounds', 'box (C++)'),
      (N + 'wagyu.hpp clear', 'clearing (C++)')],
     ['Wagyu.bounds and Wagyu.clear'])
prop('C28', 'Results use only input vertices and rounded crossings',
     'Every vertex of a result has the coordinates of a vertex of an added '
     'ring or of a crossing of two edges rounded to the nearest integers. '
     'Edges of the result follow edges of the input, moved by rounding '
     'only.' + BOTH,
     ['inputs', 'configurations'],
     'all sets of integer rings, with crossings anywhere, all operations',
     'No test relates the vertices of a result to the input.',
     [RM, W + 'edge.py', W + 'intersect_node.py', N + 'snap_rounding.hpp',
      N + 'ring_util.hpp', N + 'intersect_util.hpp'],
     [(RM + ' RingManager.insert_hot_pixels_in_path', 'snapping'),
      (RM + ' RingManager.build_hot_pixels', 'crossings'),
      (N + 'ring_util.hpp insert_hot_pixels_in_path', 'snapping (C++)'),
      (N + 'snap_rounding.hpp build_hot_pixels', 'crossings (C++)')],
     ['vertices of the multipolygon returned by an operation'])

prop('C29', 'Clipping by a box keeps what is inside the box',
     'clip(polygon, box, fill) and clip(multi_polygon, box, fill) of the C++ '
     'headers return a valid multipolygon covering exactly the points of the '
     'box which are inside the rings by the fill kind, up to the rounding of '
     'crossings to integers (boundaries move by a few units at most, pieces '
     'of half a unit of area and less may vanish). It does not matter '
     'where rings start, how often they leave and enter the box, whether '
     'they run along its sides or through its corners, surround it or miss '
     'it. Both functions give this result for the same rings.',
     ['inputs', 'configurations'],
     'all sets of integer rings closed or not, all boxes with integer '
     'corners, all fill kinds',
     'No test runs these functions; the cases depend on where edges meet the '
     'sides and corners of the box.',
     [N + 'quick_clip.hpp', N],
     [(N + 'quick_clip.hpp quick_lr_clip', 'clipping of a ring side by side'),
      (N + 'quick_clip.hpp intersect', 'crossings with the sides'),
      (N + 'quick_clip.hpp inside', 'sides of the box'),
      (N + 'quick_clip.hpp clip', 'union of the clipped rings')],
     ['the multi_polygon returned by mapbox::geometry::wagyu::clip'])

prop('C30', 'An interrupted operation leaves the rings as they were',
     'With USE_WAGYU_INTERRUPT a request to interrupt makes the running call '
     'of the C++ headers throw "Wagyu interrupted" at its next check and is '
     'used up by that. Wherever an operation is interrupted, the object '
     'keeps what was added to it: the next operations, with or without '
     'further rings added before, give the results which an object never '
     'interrupted gives. After an interrupted adding, clearing the object '
     'makes it as good as new.',
     ['crash points', 'inputs', 'histories'],
     'all sets of integer rings, every check of every operation and adding, '
     'all operations and fill kinds before and after',
     'No test compiles the headers with interruptions.',
     [N + 'interrupt.hpp', N + 'wagyu.hpp', N + 'process_maxima.hpp',
      N + 'local_minimum_util.hpp'],
     [(N + 'interrupt.hpp interrupt_check', 'check for a request'),
      (N + 'wagyu.hpp execute', 'steps of an operation'),
      (N + 'local_minimum_util.hpp initialize_lm', 'fresh start of bounds')],
     ['exceptions and results of wagyu<T>::execute and add_ring'],
     [('minima_list', 'added rings, whose bounds operations work on',
       N + 'wagyu.hpp')])

if __name__ == '__main__':
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    for p in PROPS:
        assert len(p['title']) <= 80, p['title']
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps(p) + '\n')
    print(len(PROPS))
