"""The property list: source of properties.jsonl and MANIFEST.json (python3 tools/gen.py)."""
P = []
NA = []


def prop(id, title, statement, text, why, files, mech, over=('inputs',), note='', observe=(), hook=None, bounded=None):
    P.append(dict(id=id, title=title, statement=statement, text=text, why=why, files=files, mech=mech, over=list(over), note=note,
                  observe=list(observe), hook=hook, bounded=bounded))


K, L, I = 'src/kernel/', 'src/algorithm/location/', 'src/algorithm/intersection/'
HOOKDS = 'cfg rcgal_verif makes the module data_structure public'
TOL = 'default_eps in src/kernel/number_type.rs'

prop('C01', 'The turn of three points is the sign of their signed area',
     'For any three points the turn is left exactly when twice the signed area of the triangle they form is at least the tolerance, '
     'right exactly when it is at most minus the tolerance, and collinear otherwise. '
     'The verdict is unchanged by rotating the three points or translating them, and exchanging two points exchanges left and right.',
     'all triples of finite points, including repeated, collinear and far apart ones',
     'one test samples three triples; the verdict must be right for every triple and on both sides of the tolerance',
     [K + 'point_2.rs', K + 'vector_2.rs'], [('Point2::turn', K + 'point_2.rs'), ('Vector2::cross', K + 'vector_2.rs')])

prop('C02', 'Point equality and order agree with the tolerance and with each other',
     'Two points (and two vertices) are equal exactly when their Euclidean distance is below the tolerance. '
     'The order compares equal exactly when both coordinates differ by less than the tolerance, and otherwise ranks the point with the '
     'smaller x (then, when the x agree within the tolerance, the smaller y) as the greater one; the partial order is the same relation and is total. '
     'The order is antisymmetric, equal points compare equal, and it is transitive on points whose differing coordinates differ by at least the tolerance.',
     'all pairs and triples of points and of vertices',
     'no test compares points around the tolerance; the sweep, the tree and the queue all rely on a consistent order for every pair',
     [K + 'point_2.rs', K + 'vertex_2.rs'], [('PartialEq / Ord for Point2', K + 'point_2.rs'), ('PartialEq / Ord for Vertex2', K + 'vertex_2.rs')])

prop('C03', 'Vectors and point arithmetic obey the algebra of the plane',
     'Sums, differences, scalings, dot and cross products, lengths, distances and the counter-clockwise angle between two directions are those of '
     'plane geometry, the angle always lying in [0, 2 pi). '
     'Normalising a vector at least as long as the tolerance gives the vector of length one with the same direction, and leaves shorter vectors unchanged; '
     'two vectors are equal exactly when both components agree within the tolerance.',
     'all vectors, points and scalars (division: non-zero divisor)',
     'tests evaluate a few axis-aligned vectors; every other guarantee is computed through this algebra for arbitrary operands',
     [K + 'vector_2.rs', K + 'point_2.rs'], [('vector operators, dot, cross, length, normalize, radian_to', K + 'vector_2.rs'), ('Point2 operators, distance', K + 'point_2.rs')])

prop('C04', 'A line built from two points contains both; line equality ignores scaling',
     'The line through two points contains the first exactly and the second within the tolerance (exactly when no coordinate difference is non-zero yet below the tolerance), '
     'always has a unit coefficient and does not depend on the order of the points: a difference in x below the tolerance gives the vertical line, one in y the horizontal line. '
     'Two lines are equal exactly when their coefficient triples are proportional within the tolerance, in particular when one is a multiple of the other.',
     'all pairs of points and of lines', 'one test constructs three lines; the guarantee covers every pair of points, near-vertical ones included',
     [K + 'line_2.rs'], [('Line2::from_points', K + 'line_2.rs'), ('PartialEq for Line2', K + 'line_2.rs')])

prop('C05', 'Two lines meet in one common point unless they are parallel',
     'Intersecting two lines gives a point exactly when the determinant of their direction coefficients is at least the tolerance in absolute value, and that point satisfies both line equations. '
     'The boolean predicate is true exactly when a point is given, and the result does not depend on the order of the lines.',
     'all pairs of lines', 'tests take a handful of lines; the equations must hold for every coefficient combination, zero coefficients included',
     [I + 'line_2_line_2.rs'], [('line_2_line_2_intersection, is_line_2_line_2_intersected', I + 'line_2_line_2.rs')])

prop('C06', 'Projecting a point onto a line or segment gives the foot of the perpendicular',
     'Projecting a point onto a line (coefficients zero or at least the tolerance) never fails and gives the point of the line reached at a right angle; a point already on the line projects onto itself. '
     'Projecting onto a segment gives nothing exactly when the foot lies before the source or beyond the target by more than the tolerance (measured by the dot product with the segment vector), and otherwise the foot itself, on the line of the segment at a right angle. '
     'A segment without length projects nearby points onto its source.',
     'all points, lines and segments, degenerate segments included',
     'tests use lines of slope -1, 0 and infinity, for which several wrong formulas agree; the foot must be right for every slope',
     ['src/algorithm/projection/point_2_line_2.rs', 'src/algorithm/projection/point_2_line_segment_2.rs'],
     [('point_2_project_line_2', 'src/algorithm/projection/point_2_line_2.rs'), ('point_2_project_line_segment_2', 'src/algorithm/projection/point_2_line_segment_2.rs')])

prop('C07', 'A point is located on the right side of a segment or on it',
     'A point is left (right) of a directed segment exactly when twice the signed area it forms with it exceeds the tolerance (is below minus the tolerance); otherwise it is on the segment when it lies between the ends and collinear when it lies beyond one. '
     'Every point of a segment is located on it, points of its line beyond an end are collinear; reversing the segment exchanges left and right, and a point on it stays on it: the tolerance is the same at both ends. '
     'A point is on a line exactly when the line equation holds within the tolerance.',
     'all points, segments (zero length included) and lines', 'tests locate eight points against one diagonal segment; sides and ends must be right for every direction',
     [L + 'point_2_line_segment_2.rs', L + 'point_2_line_2.rs'], [('locate_point_2_line_segment_2', L + 'point_2_line_segment_2.rs'), ('locate_point_2_line_2', L + 'point_2_line_2.rs')])

prop('C08', 'A point is located on a ray, beside it or behind its origin',
     'A ray keeps its origin and normalises its direction. '
     'A point is on a ray exactly when it equals the origin, or lies ahead of the origin with a cross product with the direction below the tolerance; other points are left, right or collinear by the sign of that cross product. '
     'Every point ahead of the origin on the ray is on it and no point behind the origin is.',
     'all points and rays, directions shorter than the tolerance included', 'tests use the horizontal unit ray only',
     [K + 'ray_2.rs', L + 'point_2_ray_2.rs'], [('Ray2::new', K + 'ray_2.rs'), ('is_point_2_on_ray_2, locate_point_2_ray_2', L + 'point_2_ray_2.rs')])

prop('C09', 'A point is inside, on or outside a circle by its distance to the centre',
     'A point is on a circle exactly when its distance to the centre differs from the radius by less than the tolerance, inside exactly when it is closer than that and outside exactly when it is farther; the boolean predicate agrees.',
     'all points and circles of positive radius', 'tests use one circle centred at the origin',
     [L + 'point_2_circle_segment_2.rs'], [('locate_point_2_circle_segment_2', L + 'point_2_circle_segment_2.rs')])

prop('C10', 'A point is on an arc exactly when it is on its circle and within its angles',
     'A point of the circle at an angle reached counter-clockwise from the source angle to the target angle is on the arc, also when the arc passes angle zero or is a whole circle; one at an angle outside that range (by more than the tolerance) or off the circle is not. '
     'The boolean predicate agrees with the location.',
     'all circles of positive radius, source and target angles in [0, 2 pi], and points', 'no test locates a point on an arc directly',
     [L + 'point_2_arc_segment_2.rs', K + 'arc_segment_2.rs'], [('locate_point_2_arc_segment_2', L + 'point_2_arc_segment_2.rs')])

prop('C11', 'Triangles keep their vertices and orientation and classify points correctly',
     'A triangle keeps its three vertices, lists its vertices and edges in construction order, is counter-clockwise exactly when its signed area is positive, and has half the cross product as its signed area. '
     'Reversing it flips the orientation and the sign of the area and nothing else. '
     'A point is inside exactly when it is strictly (by the tolerance) on the same side of all three edges, on only when it is on an edge, and outside otherwise.',
     'all triangles, degenerate ones included, and points', 'tests use two triangles and three points',
     [K + 'triangle_2.rs', L + 'point_2_triangle_2.rs'], [('Triangle2', K + 'triangle_2.rs'), ('locate_point_2_triangle_2', L + 'point_2_triangle_2.rs')])
prop('C12', 'A polygon keeps its vertices, closes its edges and measures area and convexity',
     'A polygon of any number of vertices keeps them in order and its i-th edge joins vertex i to the next one, the last to the first. '
     'Its signed area is half the sum of the cross products of consecutive vertices (zero for fewer than three vertices). '
     'It is convex exactly when no two of its corners turn in opposite directions.',
     'all polygons of any number of vertices (area: also fewer than three; convexity: at least three)',
     'tests use squares and one concave shape; the loops must be right for every length and every vertex order',
     [K + 'polygon_2.rs', K + 'point_2.rs'], [('Polygon2::new/vertices/edges/area/is_convex', K + 'polygon_2.rs')])

prop('C13', 'A point is inside a polygon exactly when it is enclosed by the boundary',
     'For a polygon of any number of vertices, convex or not and in either orientation, a point is on the polygon exactly when it is on one of its edges; '
     'otherwise it is inside exactly when the ray from it towards larger x crosses an odd number of edges, and outside otherwise. '
     'The predicates for inside, on and outside agree with the location.',
     'all polygons of any number of vertices and all points (points that the tolerance leaves neither on nor clearly beside an edge are left open)',
     'tests use one convex square; crossings through vertices, concave corners and both orientations need every input',
     [L + 'point_2_polygon_2.rs'], [('locate_point_2_polygon_2', L + 'point_2_polygon_2.rs')])

prop('C14', 'Segments intersect exactly when they touch or cross, in their common points',
     'Two segments intersect exactly when an end of one is on the other or each strictly separates the ends of the other; any two segments that share a point intersect, and the order of the two does not matter. '
     'The intersection is empty exactly when they do not intersect, contains every end lying on the other segment, and holds nothing else unless the segments merely cross, when it is the one point on both lines. '
     'Computing it never fails.',
     'all pairs of segments: crossing, touching, overlapping, parallel and without length',
     'tests take about ten pairs; overlaps, near-parallel pairs and shared ends need every pair',
     [I + 'line_segment_2_line_segment_2.rs', L + 'point_2_line_segment_2.rs'],
     [('is_line_segment_2_line_segment_2_intersected, line_segment_2_line_segment_2_intersection', I + 'line_segment_2_line_segment_2.rs')])

prop('C15', 'A segment meets a circle exactly in the points of the circle that lie on it',
     'A segment intersects a circle exactly when an end is on the circle, the ends lie on different sides of it, or both lie outside and the foot of the perpendicular from the centre falls between the ends at less than the radius (within the tolerance); a segment that contains a point of the circle always intersects it. '
     'Points are reported exactly when they intersect: each lies on the line of the segment and on the circle, one when the ends lie on different sides, two when both lie outside and the circle is clearly crossed, then between the ends.',
     'all segments at least as long as the tolerance (for the verdict: any) and circles of positive radius, except a foot that is beyond an end by less than the tolerance',
     'tests take a few axis-aligned pairs; tangency, both crossing directions and either end inside need every input',
     [I + 'line_segment_2_circle_segment_2.rs', L + 'point_2_circle_segment_2.rs', 'src/algorithm/projection/point_2_line_segment_2.rs'],
     [('is_line_segment_2_circle_segment_2_intersected, line_segment_2_circle_segment_2_intersection', I + 'line_segment_2_circle_segment_2.rs')])

prop('C16', 'Two circles meet in none, one or two points, all on both circles',
     'Two circles whose centres are at least the tolerance apart intersect exactly when the distance of the centres is, within the tolerance, between the difference and the sum of the radii; circles with one centre do not. '
     'Touching circles give one point, on the line of the centres, crossing circles two different points lying exactly on both circles, and every common point of two crossing circles is reported. '
     'The verdict agrees with the points and does not depend on the order.',
     'all pairs of circles of positive radius', 'tests take circles on the x axis; internal tangency, either radius larger and any direction need every input',
     [I + 'circle_segment_2_circle_segment_2.rs'], [('is_circle_segment_2_circle_segment_2_intersected, circle_segment_2_circle_segment_2_intersection', I + 'circle_segment_2_circle_segment_2.rs')])

prop('C17', 'An arc is met exactly in the points of its circle that lie on the arc',
     'The intersection of a segment or a circle with an arc holds exactly those points shared with the circle of the arc that are on the arc. '
     'Two arcs whose circles have common points meet in exactly those that are on both arcs; otherwise they meet in exactly the ends of either arc that lie on the other. '
     'The predicates are true exactly when there is such a point.',
     'all segments, circles and arcs (segments as in the segment-circle property)', 'tests take three arc pairs and no segment-arc pair; a point dropped or kept wrongly shows only for particular angles',
     [I + 'line_segment_2_arc_segment_2.rs', I + 'circle_segment_2_arc_segment_2.rs', I + 'arc_segment_2_arc_segment_2.rs'],
     [('line_segment_2_arc_segment_2_intersection', I + 'line_segment_2_arc_segment_2.rs'), ('circle_segment_2_arc_segment_2_intersection', I + 'circle_segment_2_arc_segment_2.rs'),
      ('arc_segment_2_arc_segment_2_intersection', I + 'arc_segment_2_arc_segment_2.rs')])

prop('C18', 'Any two of segment, circle and arc can be intersected, in either order',
     'For each of the nine ordered pairs of kinds (segment, circle, arc), the general intersection gives the verdict and the points of the function specialised for these kinds, whichever operand comes first. '
     'The general verdict is true exactly when the general intersection has points.',
     'all nine combinations and all operands', 'tests call the specialised functions; the dispatch is only exercised for two combinations',
     [I + 'segment_2_segment_2.rs', K + 'segment_2.rs'], [('is_segment_2_segment_2_intersected, segment_2_segment_2_intersection', I + 'segment_2_segment_2.rs')])

prop('C19', 'Rays meet lines and segments only ahead of their origin',
     'Intersecting a line with a ray gives a point that is on the line and on the ray, and nothing only when they are parallel or meet behind the origin (or at it) of the ray. '
     'Intersecting a segment with a ray gives the ends that are on the ray, source first, or else the crossing when the ends lie on opposite sides of the ray and the crossing is not behind its origin; a ray that meets a segment away from its ends is always reported. '
     'The predicates are true exactly when a point is given.',
     'all lines, segments and rays (line and ray: direction components zero or at least the tolerance)', 'tests use a handful of axis-aligned or diagonal rays',
     [I + 'line_2_ray_2.rs', I + 'line_segment_2_ray_2.rs', L + 'point_2_ray_2.rs'],
     [('line_2_ray_2_intersection', I + 'line_2_ray_2.rs'), ('line_segment_2_ray_2_intersection', I + 'line_segment_2_ray_2.rs')])

prop('C20', 'The convex hull is the strict counter-clockwise hull of the points',
     'For any list of points that are not all the same, every corner of the hull is one of the points, every point lies on or to the left of every side from one corner to the next (cyclically), '
     'and, when there are more than two corners, every three consecutive corners turn strictly left, so no corner is repeated or lies between two others. '
     'Points that are all the same give that one point, and no points give none.',
     'all finite lists of points, in any order, with repeats and collinear runs',
     'the test hulls one list; the result must enclose the points for every list of any length',
     ['src/algorithm/convex_hull/convex_hull_2.rs'], [('ConvexHull2::convex_hull', 'src/algorithm/convex_hull/convex_hull_2.rs')])

prop('C21', 'Arcs keep their circle and angles and split into monotone pieces',
     'An arc keeps its circle and its angles, up to whole double turns (equal angles make the whole circle); its ends are the points of the circle at these angles, and two arcs are equal exactly when centre, radius and angles agree within the tolerance (the radius exactly). '
     'Splitting an arc at least as long as the tolerance cuts it exactly at the multiples of pi strictly between its ends, gives the pieces in order from source to target on the same circle, and a whole circle splits into its upper and its lower half. '
     'An arc is a top arc exactly when, followed counter-clockwise from its source, it stays in the upper half of the circle.',
     'all circles of positive radius; construction: all angles; ends and equality: angles in [0, 2 pi]; splitting and top: angles in [0, 4 pi]',
     'no test constructs arcs with angles beyond a turn or splits one that passes angle zero',
     [K + 'arc_segment_2.rs', K + 'circle_segment_2.rs'], [('ArcSegment2::new, is_top, monotone, source, target, eq', K + 'arc_segment_2.rs'), ('CircleSegment2::monotone', K + 'circle_segment_2.rs')])

prop('C22', 'The balanced tree keeps its values ordered, complete and balanced',
     'Inserting a value makes the tree hold it once more, unless equal values are disabled and it is already there, and deleting makes it hold it once less if it was there; all other values stay. '
     'After any history of insertions and deletions the in-order listing gives exactly the values held, in ascending order, and at every node the heights of the two subtrees differ by at most one. '
     'A new or a cleared tree is empty, and listing changes nothing.',
     'all trees built by the operations, of any size and shape, over any totally ordered values', 'the test inserts a few numbers; rotations, two-child deletion and repeated values need every shape',
     ['src/data_structure/avl_tree.rs'], [('AVLTreeNode::insert, delete, mid_order_traversal; AVLTree', 'src/data_structure/avl_tree.rs')],
     over=('inputs', 'histories'), hook=HOOKDS)

prop('C23', 'The circular list stays one closed ring, whatever is inserted or deleted',
     'Inserting a value at a node puts a new node holding it directly after that node (inserting without a node into an empty list makes a ring of one), and deleting a node of the list takes out just that one; all other nodes keep their values and their order. '
     'Afterwards the next and the previous links of the nodes form one closed ring, each the inverse of the other, the length is the number of nodes, the head is the first node and the tail the last, which the head follows; an empty list has neither. '
     'Reading the head, the tail or the length changes nothing.',
     'all lists built by the operations, of any length, and every node in them', 'no test uses the list by itself; the ends, lists of one and two nodes and long histories need every case',
     ['src/data_structure/circular_doubly_linked_list.rs'], [('CircularDoubleLinkedList::insert, delete, head, tail, len', 'src/data_structure/circular_doubly_linked_list.rs')],
     over=('inputs', 'histories'), hook=HOOKDS)

prop('C24', 'The priority queue gives back what was pushed, the greatest first',
     'Popping takes a greatest value out of the queue, exactly once, and gives nothing only when the queue is empty; pushing adds the value once and loses none. '
     'The queue is called empty exactly when it holds nothing, and a new or a cleared queue holds nothing.',
     'all queues, over any totally ordered values', 'the queue is exercised only through the sweep, on a few scenes',
     ['src/data_structure/priority_queue.rs'], [('PriorityQueue::push, pop, is_empty, clear', 'src/data_structure/priority_queue.rs')],
     over=('inputs', 'histories'), hook=HOOKDS)

SWF = I + 'sweep_segment_2_intersection.rs'
prop('C25', 'The sweep reports only points that lie on two of the pushed segments',
     'Whatever line segments, circles and arcs are pushed, every point the sweep reports lies on at least two of the pushed segments by the location tests, and the sweep changes none of them, so asking again is asking about the same segments. '
     'Pushing keeps every segment as it was given, and in order: a line segment keeps its ends, a circle stays whole, an arc keeps its circle and its angles.',
     'all lists of pushed segments of any kinds, of any length', 'the test sweeps four scenes; degenerate and dense scenes of many kinds are not sampled',
     [SWF], [('SweepSegment2Intersection::push_segment, intersection, filter_intersection_points', SWF)], over=('inputs', 'histories'))

prop('C26', 'The sweep finds every point where two pushed line segments meet',
     'When only line segments are pushed, none of zero length and no two of which have more than a point in common, every point where two of them meet (a crossing, a touching end or a common end) is among the reported points, within the tolerance of the arithmetic. '
     'This holds for any number of segments through one point, for vertical segments and for any order of pushing, and the sweep always ends.',
     'all scenes of non-overlapping line segments whose coordinates are small enough (hundreds, in doubles) for rounding to stay within the tolerance; the check is bounded', 'the test sweeps one scene of five line segments; the status order and the neighbours differ in every scene',
     [SWF], [('SweepSegment2Intersection::intersection', SWF)], bounded='exhaustive on all scenes of up to 5 segments on a 3 x 3 grid and 3 on a 4 x 4 grid, and random scenes of up to 12')

PB = ('exhaustive on all polygons of up to 6 vertices on a 3 x 3 grid and 5 on a 4 x 4 grid, and random polygons of up to 24 vertices '
      '(any, star-shaped and untangled) on grids of up to 50 x 50')
prop('C27', 'A polygon is simple exactly when its boundary does not touch itself',
     'For three or more vertices, is_simple answers yes exactly when neighbouring edges share just their common vertex, and no other two edges have a point in common: '
     'a boundary that crosses itself, touches itself at a vertex or inside an edge, folds back on itself or repeats a vertex is not simple. '
     'The answer does not depend on the orientation, on the vertex the list starts with, or on convexity, and asking always ends.',
     'all polygons of three or more vertices whose coordinates are small enough (hundreds, in doubles) for rounding to stay within the tolerance; the check is bounded', 'the test asks about a square; touching, folded and nearly degenerate boundaries need every arrangement of vertices',
     [K + 'polygon_2.rs', SWF], [('Polygon2::is_simple', K + 'polygon_2.rs')], bounded=PB)

EC = 'src/algorithm/triangulation/earcut_2.rs'
prop('C28', 'Ear clipping tiles a simple polygon with n - 2 triangles over its vertices',
     'For a simple polygon of n vertices, listed in either orientation, earcut_2 gives exactly n - 2 triangles, each of three different vertex indices of the given list. '
     'No triangle is flat, every one lies inside the polygon, and together they tile it: their areas add up to that of the polygon, each edge of the polygon is a side of exactly one triangle, and every other side is shared by exactly two. A polygon that is not simple is not cut up: the call panics.',
     'all polygons of three or more vertices, with or without collinear runs of vertices, whose coordinates are as in C27; the check is bounded', 'the tests triangulate three polygons; ears that touch or hold another vertex, collinear runs and clockwise input are not sampled',
     [EC], [('earcut_2', EC), ('get_vertex_type', EC), ('init_vertex_type', EC)], bounded=PB)

NT = K + 'number_type.rs'
prop('C29', 'The number types f64 and f32 are the arithmetic the geometry is written for',
     'Two numbers are equal exactly when they differ by less than the tolerance of their type, 1e-10 for f64 and 1e-6 for f32, whatever their size. '
     'Zero and the default are 0, pi is the number pi, a double turned into the type keeps its value up to rounding, '
     'and the absolute value, square root, sine, cosine, inverse cosine, inverse tangent and the angle of a vector are those functions for every argument they are defined for.',
     'all finite numbers of both types', 'tests compare a few small doubles; f32 and numbers that are tiny, large or negative are not sampled, yet every other guarantee is computed through these functions',
     [NT], [('NumberType and DefaultNumberValueTrait for f64 and f32', NT)])

W = 'src/wasm/'
prop('C30', 'The WebAssembly bindings do what the kernel does',
     'Every type of the bindings keeps the values it is constructed from, and every function of the bindings (constructors, accessors, predicates, locations, projection, '
     'pairwise intersection, sweep, convex hull, triangulation) returns exactly what the kernel function of the same meaning returns for the wrapped values: '
     'the same verdict, number and index, and the same points in the same order. A Segment2 of the bindings stands for the segment, circle or arc that its segment_type names, '
     'whatever its other two fields hold. State is kept: calling the hull or the sweep again through the bindings gives what calling the kernel again gives.',
     'all values of the binding types, lists of points of every length, all nine pairs of segment kinds, all fillings of the unused fields of a Segment2',
     'the native test suite does not compile the bindings at all',
     [W + f for f in ('kernel/point_2.rs', 'kernel/vector_2.rs', 'kernel/segment_2.rs', 'kernel/line_segment_2.rs', 'kernel/circle_segment_2.rs', 'kernel/arc_segment_2.rs',
                      'kernel/triangle_2.rs', 'kernel/polygon_2.rs', 'algorithm/intersection/segment_2_segment_2.rs',
                      'algorithm/intersection/sweep_segment_2_intersection.rs', 'algorithm/convex_hull/convex_hull_2.rs', 'algorithm/triangulation/earcut_2.rs')],
     [('get_segment_value', W + 'kernel/segment_2.rs'), ('segment_2_segment_2_intersection', W + 'algorithm/intersection/segment_2_segment_2.rs')],
     note='the MIR of the wasm32 target is verified; heavy kernel functions are opaque (same function of the same arguments); the code generated by #[wasm_bindgen] is not examined; '
          'failing inputs are replayed natively on the same sources with the #[wasm_bindgen] attributes and target conditions dropped')

EV = [K + 'edge_2.rs', K + 'vertex_2.rs']
prop('C31', 'Half-edges and vertices keep exactly the links they are given',
     'A new half-edge joins the two vertices it is given, in that order, and has no twin, next or previous edge. '
     'Setting a source, target, twin, next or previous link changes that link of that edge and no other, and what a link leads to is the object it was set to, shared rather than copied: '
     'what is changed later is seen through every link. The segment of an edge joins its vertices as they are at that moment, '
     'and two straight edges are equal exactly when their sources are equal and their targets are equal. '
     'A vertex keeps its coordinates and lists the edges added to it in order; removing one takes out that edge only, also when it starts or ends at this very vertex or another edge has the same ends.',
     'all vertices and edges, all pairs of link settings, vertices with any number of edges', 'no test touches half-edges; aliasing through shared vertices makes the order and the target of every call matter',
     EV, [('Edge2 links and equality', K + 'edge_2.rs'), ('Vertex2::add_edge, remove_edge, edges', K + 'vertex_2.rs')], over=('inputs', 'histories'),
     note='to_arc and the equality of arc edges are todo!() in the source, and a Face2 cannot be constructed, so neither is covered')

prop('C32', 'The sweep finds every point where curves in general position meet',
     'When line segments, circles and arcs are pushed, in any mixture and order, every point where two of them meet is among the reported points, and the sweep always ends, '
     'provided the curves are in general position: no two curves touch without crossing (but a segment may go over smoothly into an arc where both end), and no two of their ends, crossings, leftmost, rightmost, top and bottom points are nearly in the same place, '
     'or exactly so, unless all of those there are ends or crossings: curves may start at, end at or pass through the end of another. '
     'Points straight above each other are no exception, two curves may meet twice, and angles may be any, multiples of 90 degrees included.',
     'all scenes of line segments, circles and arcs in general position; the check is bounded', 'the tests sweep four scenes; which curves are neighbours, and which of two meetings comes first, differs in every scene',
     [SWF], [('SweepSegment2Intersection::intersection', SWF), ('compare_segments, calculate_segment_value', SWF)],
     bounded='random scenes of up to 8 curves (12 in the thorough tier), with free coordinates and angles or on coarse grids, many of them starting at, ending at or passing through ends of others, some with rounded rectangles')

HOOKS = ['f0d3cd6279f5d6fa7558734037fe00ad300b23e3']
