#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, hook="crate re-export behind cfg(geos_verif)"):
    # at most three sentences
    parts = statement.rstrip(".").split(". ")
    if len(parts) > 3:
        low = lambda t: t if t[:2] in ("Z ", "X ", "2D", "3D") else t[0].lower() + t[1:]
        parts = parts[:2] + ["; ".join([parts[2]] + [low(t) for t in parts[3:]])]
    statement = ". ".join(parts) + "."
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook)))
A="src/core/algorithm/"; G="src/core/geom/"; M="src/core/math/"; U="src/core/util/"; I=G+"implementation/"

p("P01","Orientation of three points is exactly right",
 "For all finite points p1, p2, q whose coordinate differences and their products neither overflow nor underflow, and whose pairwise coordinate differences are exactly representable as doubles, the orientation index of q relative to the directed line p1->p2 equals the sign of the exact real determinant: left turn +1, right turn -1, collinear 0, however close to collinear the points are. For points whose differences round it is still right whenever the exact determinant exceeds 2^-85 times the product of the largest x and y differences. It is therefore antisymmetric when two points are swapped and unchanged when the three points are rotated cyclically, in every entry point that exposes it (the predicate itself, the double-double implementation, the sign of a 2x2 determinant, and a segment's point and segment orientation, where a segment is on a side when neither of its ends is on the other side and not both are on the line).",
 ["inputs"],"all triples of points (and pairs of segments) over alphabets that mix small grids, large offsets, last-bit perturbations, wildly different magnitudes and signed zeros",
 "Unit tests try a few dozen hand-picked triples; the filter/extended-precision split only matters on the near-degenerate inputs they do not contain.",
 [A+"orientation.rs",A+"cg_algorithms_dd.rs",M+"dd.rs",G+"line_segment.rs"],
 [("floating-point filter with fallback to double-double determinant","CGAlgorithmsDD::orientation_index*"),("segment orientation by both end points","LineSegment::orientation_index_line_segment")],
 ["Orientation::index","CGAlgorithmsDD::orientation_index","CGAlgorithmsDD::sign_of_det_2x2","LineSegment::orientation_index*"])

p("P02","Point-in-ring, on-line and on-segment location is exact",
 "For every closed ring (any shape: self-touching, self-crossing, with repeated points, spikes or zero area) and every point, the ring location is Boundary exactly when the point lies on a ring segment, and otherwise Interior or Exterior by the even-odd rule; is-in-ring is true exactly for Interior and Boundary, on-line is true exactly when the point lies on a segment of the line, and on-segment likewise for a single segment. The answer does not depend on the ring's direction, its starting vertex, repeated vertices, on coordinate array versus coordinate sequence entry points, or on the order in which a ring's segments are fed to an incremental crossing counter, whose count is the number of segments that the ray to the right crosses (each with its lower end and without its upper one) when the point is on none. All this holds exactly on inputs where orientation is exact.",
 ["inputs","histories"],"all short rings over a lattice with all lattice and off-lattice query points; every rotation, reversal, vertex duplication, and every feed order of the incremental counter; longer generated rings",
 "The suite contains a handful of polygons with a few query points; vertex-on-ray, horizontal-edge and degenerate-ring cases are combinatorial.",
 [A+"ray_crossing_counter.rs",A+"point_location.rs",G+"linear_ring.rs"],
 [("ray crossing with orientation test","RayCrossingCounter::count_segment"),("location from parity and on-segment flag","RayCrossingCounter::get_location")],
 ["RayCrossingCounter","PointLocation"])

p("P03","Segment intersection is classified and located correctly",
 "For every pair of segments the line intersector reports no intersection, a point, or a collinear overlap exactly as exact arithmetic does (on inputs where orientation is exact), whatever the order of the segments or of their endpoints and whatever was computed before with the same intersector. Every reported point lies in both segments' envelopes (unless a precision model rounds it) and within rounding error of the true intersection; an intersection at an input vertex is reported as exactly that vertex, and a collinear overlap reports exactly the two end points of the overlap, each once. Z is taken from the input vertex or interpolated along the segments (averaged where both supply one, absent where neither does), and with a precision model computed points are rounded to it. Point-on-segment tests agree, and the fallback point is the input end point nearest the other segment.",
 ["inputs","histories"],"all pairs of segments over a lattice and over near-degenerate alphabets, every endpoint/segment order, every Z assignment pattern, every short sequence of reuses of one intersector object",
 "Existing tests check some fixed segment pairs; collinear overlaps and vertex touches have many symmetric sub-cases, each on a separate code branch, and reuse of one intersector is not tested.",
 [A+"robust_line_intersector.rs",A+"line_intersector.rs",A+"intersection.rs",A+"cg_algorithms_dd.rs",A+"distance.rs"],
 [("orientation-based case split","RobustLineIntersector::compute_intersect"),("collinear case split","compute_collinear_intersection"),("fallback to nearest end point","nearest_endpoint"),("Z interpolation","z_get_or_interpolate*")],
 ["RobustLineIntersector public results","LineSegment::intersection"])

p("P04","Intersection of two infinite lines is the true intersection point",
 "For any two lines each given by two distinct points, the computed intersection point is absent exactly when the lines are parallel (or coincident), and otherwise lies within rounding error of the exact rational intersection, in every entry point (plain, double-double, floating-point, homogeneous-coordinate and segment forms); swapping the lines or a line's points does not move it beyond that error. The line-and-segment variant reports a point exactly when the infinite line meets the closed segment, and that point is on both (the segment's end nearest the line where the crossing overflows).",
 ["inputs"],"all pairs of lines over lattice points plus large offsets and near-parallel families",
 "Tests pin a few pairs; parallel, coincident, far-offset and near-parallel inputs each take other paths.",
 [A+"intersection.rs",A+"cg_algorithms_dd.rs",A+"hcoordinate.rs",G+"line_segment.rs"],
 [("DD determinant intersection","CGAlgorithmsDD::intersection"),("conditioned homogeneous intersection","Intersection::intersection_fp, HCoordinate")],
 ["Intersection::intersection","Intersection::intersection_fp","Intersection::line_segment","HCoordinate","LineSegment::line_intersection"])

p("P05","2D distances are true minimum distances",
 "The point-segment, point-line (perpendicular, signed and unsigned), point-polyline and segment-segment distances equal the exact Euclidean minimum up to rounding, for degenerate, crossing, touching, collinear, overlapping and parallel inputs alike; the signed perpendicular distance is negative for points left of the directed line. Segment-segment distance is 0 exactly when the segments share a point (up to rounding where coordinate differences or their products round), and it is symmetric under swapping segments or end points. Squared differences neither overflow nor underflow. The segment object's distance methods agree, its oriented perpendicular distance being positive on the left.",
 ["inputs"],"all segment pairs and point/segment/polyline combinations over a lattice, near-degenerate and offset alphabets",
 "Suite covers few segment positions; the closed form has separate branches for degenerate, parallel and non-crossing segments.",
 [A+"distance.rs",G+"line_segment.rs"],
 [("projection parameter branches","Distance::point_to_segment"),("end-point minimum when not crossing","Distance::segment_to_segment")],
 ["Distance","LineSegment::distance*"])

p("P06","Line-segment referencing operations are mutually consistent and exact",
 "For every segment and point: the projection factor and projected point are those of the exact orthogonal projection, the segment fraction is that factor clamped to [0,1], the closest point is the nearest point of the segment, the reflection is the mirror image, and a point computed at a fraction (and perpendicular offset, left positive) lies at exactly that place, all up to rounding where squared differences neither overflow nor underflow. Projecting a segment onto another yields the part covered by its image, or nothing if the image meets the segment at most in an end point; the closest points of two segments are always a pair, one on each, that realises their distance. Length, angle, midpoint, horizontal and vertical tests and extents are those of the end points; reversing, normalizing (smaller end first), comparing (lexicographic by end points) and exact and topological equality agree with the end points.",
 ["inputs"],"all segments, points and segment pairs over a lattice including degenerate segments, with all lattice fractions and offsets",
 "Each operation is tested on one or two axis-aligned examples.",
 [G+"line_segment.rs",A+"distance.rs"],
 [("projection by dot product","LineSegment::projection_factor"),("closest points by case analysis","LineSegment::closest_points")],
 ["LineSegment"])

p("P07","Ring area, ring orientation and line length",
 "For every closed ring the signed area equals the exact shoelace value up to rounding (positive for clockwise), the unsigned area is its absolute value, and the coordinate-array and coordinate-sequence variants agree whatever Z or M the sequence carries; the area-based orientation test is true exactly when that area is counter-clockwise. For every simple ring (consecutive repeated points allowed) the orientation test is true exactly when the exact signed area says the ring runs counter-clockwise, and it never panics on any point list. The length of a line is the sum of its segment lengths.",
 ["inputs"],"all rings of up to six lattice points (simple ones for orientation), all rotations, reversals and duplications of vertices, large offsets, long rings",
 "The tests contain a few rings; flat tops, duplicated top vertices, spikes and starting vertex positions combine.",
 [A+"area.rs",A+"length.rs",A+"orientation.rs"],
 [("shoelace relative to first x","Area::of_ring_signed*"),("scan for highest upward segment and flat cap","Orientation::is_ccw*")],
 ["Area","Length","Orientation::is_ccw*"])

p("P08","Centroid is the true centre of mass",
 "The centroid of a point, line, polygon or multi-polygon is the exact centre of mass of its highest-dimensional non-degenerate part up to rounding: area-weighted (shell minus holes) when the total area is not zero, else length-weighted over all segments, else the mean of the points; it is absent exactly when there is nothing to average. It does not depend on ring direction, starting vertex, the order of holes or elements, and empty elements contribute nothing. Shells with holes are simple rings; a single shell may have any shape, its signed areas then cancelling. The geometry's precision model is applied to the result.",
 ["inputs"],"all small rings, shells with holes, and multi-polygons over a lattice, all directions/rotations, degenerate and empty elements",
 "Only a few fixture geometries are tested; degenerate area and hole/shell direction combinations are not.",
 [A+"centroid.rs",G+"polygon.rs",G+"multi_polygon.rs"],
 [("signed triangle fan about a base point","Centroid::add_shell/add_hole/add_triangle"),("fallback to lines and points","Centroid::get_centroid")],
 ["Centroid::get_centroid*"])

p("P09","Envelopes form an exact rectangle algebra",
 "After any history of construction, expansion (by points, distances, envelopes), translation, intersection, copying and reset with finite ordinates, an envelope is either null or exactly the rectangle a simple interval model predicts, and its width, height, area, diameter, minimum and maximum extent, centre, and every intersects/contains/covers/disjoint/equality/ordering query against points, point pairs and other envelopes, and the distance between non-null envelopes, give the model's answer, null envelopes included. Static box tests on raw points agree with the envelope methods.",
 ["inputs","histories"],"all operation sequences up to a fixed depth over a small ordinate alphabet (breadth-first over reachable envelopes), and all pairs/triples of reachable envelopes and points",
 "Tests exercise single calls from fresh envelopes; null handling and sequences of expand/translate/shrink are not covered systematically.",
 [G+"envelope.rs"],
 [("null encoded as max<min","Envelope::is_null / init"),("interval comparisons","intersects*/contains*/covers*")],
 ["Envelope"])

p("P10","Octagonal envelopes bound exactly what was added",
 "After any history of expansions by points, point lists, envelopes, other octagonal envelopes and distances, an octagonal envelope is null exactly when nothing has been included, and otherwise has exactly the minimum and maximum of x, y, x-y and x+y over everything included (grown by the expansion distances, sqrt(2) times as far on the diagonals, up to rounding; becoming null when shrunk past nothing). Containment and intersection queries with points and other octagons follow those eight bounds and are false whenever either side is null.",
 ["inputs","histories"],"all operation sequences to a fixed depth over a small alphabet including null arguments, all pairs of reachable octagons",
 "Tests build a few octagons once; they do not mix null arguments, resets and expansions.",
 [G+"octagonal_envelope.rs"],
 [("eight running bounds with null sentinel","OctagonalEnvelope::expand_to_include_*"),("query via bound comparison","intersects*/contains")],
 ["OctagonalEnvelope"])

p("P11","DE-9IM matrices and named predicates follow their patterns",
 "For every intersection matrix with cells F, 0, 1, 2 or T and every pair of operand dimensions, each named spatial predicate (disjoint, intersects, touches, crosses, within, contains, covers, covered-by, equals, overlaps) is true exactly when the matrix matches the predicate's published DE-9IM pattern(s) for those dimensions, and pattern matching works per cell for every symbol (T, F, *, 0, 1, 2). Transposing swaps the roles of the operands and is an involution; text in symbols round-trips; set, set-at-least, set-if-valid, set-all and add change exactly the named cells in the stated way, over any history of updates. Dimension symbols and values convert both ways.",
 ["inputs","histories"],"all 4^9 matrices x all dimension pairs, all cell x symbol pairs, and all sequences of mutators to a fixed depth",
 "The suite checks a couple of dozen matrices out of 262144 and no update histories.",
 [G+"intersection_matrix.rs",G+"dimension.rs",G+"location.rs"],
 [("predicates on nine cells","IntersectionMatrix::is_*"),("symbol match","IntersectionMatrix::matches*")],
 ["IntersectionMatrix","Dimension"])

p("P12","Coordinate sequences behave like plain lists of coordinates",
 "For every dimension and measure layout (XY, XYZ, XYM, XYZM), an array-backed or packed coordinate sequence built from any source holds exactly the given ordinates (absent ones read as NaN), each write changes exactly the addressed ordinate, and reads through index, ordinate, coordinate, envelope and array views all agree after any sequence of writes; a copy is independent of its original. Reverse, swap, copy (ordinate by ordinate between layouts), extend, close-ring, ring test, minimum search (non-empty ranges), scroll, index search and equality permute or compare whole coordinates, including Z and M, exactly as the same operation on a plain list. Sequences are built from coordinates of one layout.",
 ["inputs","histories","configurations"],"all layouts x all short sequences over a small value alphabet x all operation sequences to a fixed depth, plus longer sequences",
 "Tests use fixed X/Y sequences; the M ordinate, packed layouts and operation chains are barely exercised.",
 [I+"coordinate_array_sequence.rs",I+"coordinate_array_sequence_factory.rs",I+"packed_coordinate_sequence.rs",I+"packed_coordinate_sequence_double.rs",I+"packed_coordinate_sequence_factory.rs",G+"coordinate_array_sequences.rs",G+"packed_coordinate_sequences.rs",G+"coordinates.rs",G+"coordinate.rs"],
 [("layout arithmetic on dimension/measures","get_ordinate/set_ordinate"),("list edits in place","CoordinateArraySequences / PackedCoordinateSequences")],
 ["CoordinateArraySequence","PackedCoordinateSequenceDouble","CoordinateArraySequences","PackedCoordinateSequences"])

p("P13","Coordinate arrays and coordinate lists edit like plain lists",
 "On every coordinate array, the array utilities (repeated- and invalid-point detection and removal, deep copy and block copy, extraction of an inclusive range, minimum, search, scrolling with and without ring closure, ring test, direction, equality, equality in reverse, comparison, envelope, intersection and envelope filtering, dimension and measure consistency) return what the same operation on a plain list returns; enforcing consistency never loses an ordinate the target layout has. A coordinate list reached by any sequence of additions (with or without repeats, forward or backward, whole or by half-open range walked backward when its start exceeds its end, at any position) and ring closing holds exactly the model's coordinates: with repeats disallowed no addition introduces two equal neighbours, and nothing else is lost, reordered or duplicated.",
 ["inputs","histories"],"all arrays of bounded length over a small point alphabet and all sequences of list edits to a fixed depth",
 "Tests use a few arrays; backward and ranged additions and insertions at every position are not covered.",
 [G+"coordinate_arrays.rs",G+"coordinate_list.rs"],
 [("duplicate suppression by neighbour comparison","CoordinateList::add_*"),("index arithmetic on arrays","CoordinateArrays::scroll*/extract")],
 ["CoordinateArrays","CoordinateList"])

p("P14","Double-double arithmetic keeps about 106 bits and exact signs",
 "For finite operands without over- or underflow, double-double add, subtract, multiply, divide, square, square root, reciprocal, integer power and determinant agree with exact rational arithmetic to a few units in 2^-100 relative to the operands' magnitude and return normalised values, in-place and copying forms agree, and operands of copying forms are never modified. Sign, comparison, minimum, maximum, absolute value, negation, floor, ceiling, truncation and rounding to integer (floor of x+1/2, for x not within rounding error of a tie) are exact for every normalised value, the decimal magnitude and the conversions to double and integer are right, the sign of a 2x2 determinant of doubles is exact, and NaN is propagated.",
 ["inputs","histories"],"all operand pairs over a multi-scale alphabet of doubles and double-doubles, and chains of operations from non-initial values",
 "Tests check identities on a handful of values with loose tolerances.",
 [M+"dd.rs"],
 [("error-free transformations","self_add_hi_lo, self_multiply_hi_lo, self_divide_hi_lo"),("sign and integer part from hi/lo","signum, floor, ceil, trunc, rint")],
 ["DD"])

p("P15","Precision models round predictably",
 "For every precision model (floating, single, fixed with a scale or a grid size), making a value precise leaves NaN and infinities alone, returns the value itself (floating), the nearest single-precision value (single) or the nearest grid value with ties going up (fixed, for values whose scaled magnitude stays below 2^51); it is idempotent and monotone. Rounding a coordinate rounds X and Y and nothing else; the significant digit count, the description and the ordering and equality of models follow their type and scale.",
 ["inputs","configurations"],"all models over an alphabet of scales/grid sizes x all values in an alphabet of halves, neighbours, negatives, large and special values",
 "Tests check a few positive values per scale; halves, negatives and grid sizes are not systematically covered.",
 [G+"precision_model.rs"],
 [("scale, round, unscale","PrecisionModel::make_precise*"),("significant digits","get_maximum_significant_digits / compare_to")],
 ["PrecisionModel"])

p("P16","Geometry copies, reversals and normal forms preserve the geometry",
 "For every point, line string, ring, polygon with holes and multi-geometry (empty and nested-empty included), a copy is equal to and independent of the original, keeps its precision model, reversal reverses each component's coordinates and twice gives the original back, and normalization of lines, simple rings and polygons of simple rings changes only direction, ring starting points and component order (shell clockwise, holes counter-clockwise, smallest point first), is idempotent, and maps all such variants of one geometry to the same normal form. Exact equality with a tolerance holds exactly when type, structure and every corresponding coordinate agree within that Euclidean distance.",
 ["inputs","histories"],"all small geometries over a lattice, all rotations/reversals/permutations of their components, all chains of copy/reverse/normalize",
 "Tests copy and normalize a few geometries without holes; several component operations are not executed by any test.",
 [G+"point.rs",G+"line_string.rs",G+"linear_ring.rs",G+"polygon.rs",G+"multi_point.rs",G+"multi_line_string.rs",G+"multi_polygon.rs",G+"geometry.rs",G+"geometry_factory.rs"],
 [("component-wise copy/reverse","*::copy/*::reverse"),("ring scroll and orientation","LineString::normalize, Polygon::normalize*")],
 ["geometry types' copy, reverse, normalize, equals_exact"])

p("P17","Geometry measures and accessors agree with their coordinates",
 "For every geometry, emptiness, number of points and of components, coordinates and their order, start/end points, closedness, dimension and boundary dimension, envelope, length and area are exactly those implied by its coordinate lists (shells minus holes, sums over elements), whichever factory path built it, and accessors by index return the corresponding component. The rectangle test is true, among simple five-point rings, exactly for an axis-parallel rectangle without holes.",
 ["inputs","configurations"],"all small geometries of each type over a lattice, built through every factory path",
 "Tests query few accessors on few fixtures.",
 [G+"point.rs",G+"line_string.rs",G+"linear_ring.rs",G+"polygon.rs",G+"multi_point.rs",G+"multi_line_string.rs",G+"multi_polygon.rs",G+"geometry_factory.rs",G+"geometry.rs"],
 [("delegation to components","get_num_points/get_coordinates/get_area/get_length"),("rectangle test","Polygon::is_rectangle")],
 ["geometry accessors"])

p("P18","Orderings are total orders consistent with equality",
 "Every comparison (coordinates, coordinate arrays and sequences by dimension limit, line segments, envelopes, precision models, double-doubles, points, line strings, polygons) is the lexicographic order of the documented keys: reflexive, antisymmetric, transitive, and zero exactly on equal keys; the sequence comparator orders NaN below every number. Coordinate equality predicates (2D, 3D, with tolerance, in Z) hold exactly when the compared ordinates agree, with NaN equal only to NaN where the documentation says so. X and Y are not NaN.",
 ["inputs"],"all pairs and triples over a small value alphabet including signed zeros, infinities and NaN in optional ordinates",
 "Tests compare a few pairs; transitivity and tie-breaking need all triples.",
 [G+"coordinate.rs",G+"coordinate_sequence_comparator.rs",G+"line_string.rs",G+"point.rs",G+"polygon.rs",G+"coordinate_arrays.rs",U+"number_util.rs"],
 [("lexicographic comparison","Coordinate::compare_to, CoordinateSequenceComparator")],
 ["compare_to*","equals*"])

p("P19","Angles are normalised, oriented and classified consistently",
 "For all finite points, angle, angle-between, oriented angle (counter-clockwise positive), interior angle, bisector, turn and angle difference lie in their documented ranges and agree with exact geometry up to rounding; acute and obtuse tests are exact wherever the dot product is computed exactly; normalization maps any angle of moderate size to the unique equivalent in (-pi,pi] or [0,2pi). Degree/radian conversion are inverse, snapped sine and cosine are exactly 0 at the quarter turns up to a full turn and otherwise the true values to within 5e-16, and projecting by an angle and distance lands at that point.",
 ["inputs"],"all point triples on a lattice and offset alphabets, all angles k*pi/24 (+ulp perturbations) over many turns",
 "Tests cover a few angles.",
 [A+"angle.rs"],
 [("atan2 based angles","Angle::angle*"),("range reduction loops","Angle::normalize*")],
 ["Angle"])

p("P20","Vectors and quadrants follow plane and space geometry",
 "2D vector arithmetic, length and distance (without spurious overflow or underflow), dot product, angles, normalization, rotation (arbitrary and by any number of quarter turns, negative ones included), parallelism (exactly), weighted sums (the weight belonging to the receiver), translation and conversion to and from coordinates are those of the plane, and 3D vector arithmetic, dot products, lengths and normalization those of space, with the operands unchanged. Quadrants of directions partition the plane (axes going to the documented quadrant, the zero direction to none), and opposite, common-half-plane and half-plane membership follow from that numbering; opposite sides are left and right.",
 ["inputs"],"all vector pairs on a lattice, all quarter turn counts in a range, all quadrant pairs and lattice directions",
 "A few vectors are tested; quarter-turn counts and quadrant pairs are not enumerated.",
 [M+"vector_2d.rs",M+"vector_3d.rs",G+"quadrant.rs",G+"position.rs"],
 [("component formulas","Vector2D/Vector3D"),("quadrant tables","Quadrant::*")],
 ["Vector2D","Vector3D","Quadrant"])

p("P21","Triangle measures and centres are those of the triangle",
 "For every triangle, area, signed area (clockwise positive), 3D area, perimeter, longest side, centroid, acute classification, direction, circumcentre and circumradius (infinite for flat triangles), in-centre, angle bisector and perpendicular bisectors agree with exact geometry up to rounding, the double-double circumcentre even for needles, and are invariant or sign-changing as expected under permutation of vertices; the closed point-in-triangle test is exact for non-degenerate triangles, and interpolated Z is that of the triangle's plane at the query point. Methods of a triangle object and the functions on three points agree.",
 ["inputs"],"all non-degenerate lattice triangles with all vertex permutations, offset triangles, all lattice query points",
 "Tests evaluate a few triangles.",
 [G+"triangle.rs"],
 [("closed formulas, DD circumcentre","Triangle::*")],
 ["Triangle"])

p("P22","3D distances are true minimum distances",
 "The 3D point-point, point-segment and segment-segment distances equal the exact Euclidean minimum up to rounding for every pair of points with Z, degenerate, parallel, skew, touching and intersecting segments included, symmetric in the arguments, where squared differences neither overflow nor underflow; the point-point distance falls back to the 2D distance when either point has no Z. The coordinate's own 2D and 3D distances agree.",
 ["inputs"],"all point/segment and segment/segment pairs over a small 3D lattice, with and without Z",
 "Tests check one case per function.",
 [A+"cg_algorithms_3d.rs"],
 [("parametric closest points","CGAlgorithms3D::distance_segment_segment")],
 ["CGAlgorithms3D"])

p("P23","The linear solver solves exactly the non-singular systems",
 "For every square system of order one or more the solver returns the exact solution up to rounding (a backward-stable one, also for tiny pivots) when the matrix is non-singular, and nothing when it is singular and elimination is exact or when the shapes do not match, whatever the order of its rows. Row exchange swaps whole rows.",
 ["inputs"],"all 1x1 to 3x3 systems over small integer entries and all row permutations of selected larger systems",
 "One matrix is (or none are) tested; pivoting order matters.",
 [M+"matrix.rs"],
 [("Gaussian elimination with partial pivoting","Matrix::solve")],
 ["Matrix::solve"])

p("P24","Scalar helpers obey their defining equations",
 "Clamping, ceiling division (any signs), index wrapping, averages, maxima and minima of several values, tolerance equality and the quasirandom recurrence return what their definitions say for every argument that does not overflow, quasirandom values (of a non-negative start and step) staying in [0,1); and shuffling n indices returns a permutation of 0..n-1 for every outcome of its random choices, every order being equally likely.",
 ["inputs","schedules"],"all arguments over small integer ranges and a special-value float alphabet; every n up to a bound for shuffle",
 "Tests check a few values.",
 [U+"math_util.rs",U+"number_util.rs"],
 [("direct formulas","MathUtil::*")],
 ["MathUtil","NumberUtil"])

p("P25","Textual forms state every part of the value",
 "The text of a coordinate `(x, y, z)`, coordinate array sequence `((x, y, z), ...)` (`()` when empty), envelope `Env[minx : maxx, miny : maxy]`, 2D vector `[x, y]`, 3D vector `[x, y, z]` and precision model (its type, and the scale of a fixed one) carries every ordinate, each in its place and in order, with digits enough to read the same double back: numbers parsed from the text equal the value's own bit for bit, signed zeros, infinities, subnormals and NaN included.",
 ["inputs"],"every binade's power of two and neighbours in every ordinate of every type; sequences of every length up to a bound and every layout",
 "Tests print a few round values; lost digits or swapped ordinates show only on particular values.",
 [G+"coordinate.rs",G+"implementation/coordinate_array_sequence.rs",G+"envelope.rs",G+"precision_model.rs",M+"vector_2d.rs",M+"vector_3d.rs"],
 [("Display and to_string","impl Display for Coordinate, Envelope, PrecisionModel, CoordinateArraySequence")],
 ["Display"])

p("P26","A coordinate is a plain record of its ordinates",
 "Every constructor of a coordinate yields exactly the given X, Y, Z and M, absent ones reading NaN, and value-less ones X = Y = 0; after any history of writes (by name, by ordinate index, or from another coordinate, which brings at least X, Y and Z) every read by name or index returns the last value written to that ordinate and no other ordinate has changed; writes and reads of ordinates that do not exist do nothing. The layout (XY, XYZ, XYM, XYZM), dimension and number of measures of a coordinate with X and Y follow from which of Z and M are present, and a coordinate is valid exactly when X and Y are finite. A copy is independent of its original.",
 ["inputs","histories"],"all records over an alphabet with signed zeros, infinities and NaN by every constructor; breadth-first search over all writes until no new record appears",
 "Tests set a few ordinates of a few coordinates; M, absent ordinates and special values are not covered.",
 [G+"coordinate.rs",G+"coordinates.rs"],
 [("accessors of the four fields","Coordinate::get_*/set_*"),("layout from absent ordinates","Coordinates::dimension/measures")],
 ["Coordinate","Coordinates"])

p("P27","Every call answers, and answers the same whatever was called before",
 "For arguments of any value (NaN, infinities, signed zeros, subnormals and the largest doubles among the ordinates, degenerate and empty point lists and geometries, any integer where the argument has no stated range) every predicate, measure, construction, comparison, normalization and conversion returns, without a panic, an arithmetic overflow or an endless loop. The answer is a function of the arguments alone: repeated, in whatever order, after whatever other calls, and on whichever thread, the same call gives the same answer bit for bit. Outside this property are indexes out of range, integer divisors and moduli that are not positive, angles to be normalized of more than some thousand turns, infinite precision-model scales and the random shuffle.",
 ["inputs","histories"],"all tuples of points, numbers and integers over alphabets of special values, all short point sequences over them, every operation forwards then backwards; all ordered pairs of calls and all triples of calls of one operation over a pool of inputs that share most of their values",
 "Tests call each operation once or twice, each in its own thread, with ordinary values: comparisons of NaN that panic and remembered results of earlier calls never show.",
 [A+"robust_line_intersector.rs",A+"cg_algorithms_dd.rs",A+"centroid.rs",G+"line_segment.rs",G+"polygon.rs",G+"coordinate_arrays.rs",G+"envelope.rs",M+"dd.rs"],
 [("comparisons and conversions that accept every double","compare_to, CoordinateSequenceComparator::compare_f64, sort keys of normalization"),("no state outside the objects passed in","associated functions without statics")],
 ["every public operation on values"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
