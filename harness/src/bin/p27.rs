// P27 Every operation answers, and answers the same whatever was called before
use geos_rs::verif::*;
use geosmc::{ensure, mc::*};
use std::sync::OnceLock;

const NAN: f64 = f64::NAN;
const INF: f64 = f64::INFINITY;

/// a digest of an answer, bit for bit, any NaN being NaN
struct H(u64);
trait Bits { fn bits(&self, h: &mut H); }
impl H { #[inline] fn put(&mut self, v: u64) { self.0 = (self.0.rotate_left(29) ^ v).wrapping_mul(0x9E3779B97F4A7C15); } }
impl Bits for f64 { #[inline] fn bits(&self, h: &mut H) { h.put(if self.is_nan() { f64::NAN.to_bits() } else { self.to_bits() }) } }
macro_rules! ints { ($($t:ty),*) => { $(impl Bits for $t { #[inline] fn bits(&self, h: &mut H) { h.put(*self as u64) } })* } }
ints!(i32, bool, usize, char, u64);
impl Bits for () { fn bits(&self, _: &mut H) {} }
impl Bits for str { fn bits(&self, h: &mut H) { h.put(self.len() as u64); for b in self.bytes() { h.put(b as u64) } } }
impl Bits for &'static str { fn bits(&self, h: &mut H) { (**self).bits(h) } }
impl Bits for String { fn bits(&self, h: &mut H) { self.as_str().bits(h) } }
impl Bits for Coordinate { fn bits(&self, h: &mut H) { for v in [self.x, self.y, self.z, self.m] { v.bits(h) } } }
impl<T: Bits> Bits for Option<T> { fn bits(&self, h: &mut H) { match self { None => h.put(7), Some(v) => { h.put(8); v.bits(h) } } } }
impl<T: Bits> Bits for Vec<T> { fn bits(&self, h: &mut H) { h.put(self.len() as u64); for v in self { v.bits(h) } } }
impl<T: Bits, const N: usize> Bits for [T; N] { fn bits(&self, h: &mut H) { for v in self { v.bits(h) } } }
impl<A: Bits, B: Bits> Bits for (A, B) { fn bits(&self, h: &mut H) { self.0.bits(h); self.1.bits(h) } }
impl<A: Bits, B: Bits, C: Bits> Bits for (A, B, C) { fn bits(&self, h: &mut H) { self.0.bits(h); self.1.bits(h); self.2.bits(h) } }
impl<A: Bits, B: Bits, C: Bits, D: Bits> Bits for (A, B, C, D) { fn bits(&self, h: &mut H) { self.0.bits(h); self.1.bits(h); self.2.bits(h); self.3.bits(h) } }
impl Bits for LineSegment { fn bits(&self, h: &mut H) { self.p0.bits(h); self.p1.bits(h) } }
impl Bits for Envelope { fn bits(&self, h: &mut H) { self.is_null().bits(h); if !self.is_null() { for v in [self.get_min_x(), self.get_max_x(), self.get_min_y(), self.get_max_y()] { v.bits(h) } } } }
impl Bits for OctagonalEnvelope { fn bits(&self, h: &mut H) { self.is_null().bits(h); if !self.is_null() { for v in [self.get_min_x(), self.get_max_x(), self.get_min_y(), self.get_max_y(), self.get_min_a(), self.get_max_a(), self.get_min_b(), self.get_max_b()] { v.bits(h) } } } }
impl Bits for DD { fn bits(&self, h: &mut H) { self.dump().bits(h); self.double_value().bits(h) } }
impl Bits for HCoordinate { fn bits(&self, h: &mut H) { self.get_x().bits(h); self.get_y().bits(h) } }
impl Bits for Vector2D { fn bits(&self, h: &mut H) { self.get_x().bits(h); self.get_y().bits(h) } }
impl Bits for Vector3D { fn bits(&self, h: &mut H) { self.get_x().bits(h); self.get_y().bits(h); self.get_z().bits(h) } }
impl Bits for CoordinateArraySequence { fn bits(&self, h: &mut H) { (self.get_dimension(), self.get_measures(), self.to_coordinate_array()).bits(h) } }
impl Bits for PackedCoordinateSequenceDouble { fn bits(&self, h: &mut H) { (self.get_dimension(), self.get_measures(), self.to_coordinate_array()).bits(h) } }
impl Bits for LineString { fn bits(&self, h: &mut H) { self.get_coordinates().bits(h) } }
impl Bits for LinearRing { fn bits(&self, h: &mut H) { self.get_coordinates().bits(h) } }
impl Bits for Point { fn bits(&self, h: &mut H) { self.get_coordinates().bits(h) } }
impl Bits for Polygon { fn bits(&self, h: &mut H) { self.get_exterior_ring().bits(h); for i in 0..self.get_num_interior_ring() { self.get_interior_ring_n(i).bits(h) } } }

macro_rules! table {
    ($t:ty, $a:ident; $($n:literal : $e:expr;)*) => { &[$(($n, { fn f($a: &$t) -> u64 { let mut h = H(1); Bits::bits(&$e, &mut h); h.0 } f })),*] }
}
type Op<T> = (&'static str, fn(&T) -> u64);

// ---- operations on up to four points ----
type C4 = [Coordinate; 4];
fn seg(a: &Coordinate, b: &Coordinate) -> LineSegment { LineSegment::new_from_coordinates(a, b) }
fn rli(a: &C4, pm: Option<PrecisionModel>) -> RobustLineIntersector { let mut r = RobustLineIntersector::default(); if let Some(p) = pm { r.set_precision_model(p); } r.compute_intersection_4(&a[0], &a[1], &a[2], &a[3]); r }
fn env(a: &Coordinate, b: &Coordinate) -> Envelope { Envelope::new_coordinates(a, b) }
fn oct(a: &Coordinate, b: &Coordinate) -> OctagonalEnvelope { OctagonalEnvelope::new_with_coordinates(a, b) }
fn ch<T>(mut v: T, f: impl FnOnce(&mut T)) -> T { f(&mut v); v }
const POINTS: &[Op<C4>] = table! { C4, a;
    "Orientation::index": Orientation::index(&a[0], &a[1], &a[2]);
    "CGAlgorithmsDD::orientation_index": (CGAlgorithmsDD::orientation_index_coordinates(&a[0], &a[1], &a[2]), CGAlgorithmsDD::orientation_index_xy(a[0].x, a[0].y, a[1].x, a[1].y, a[3].x, a[3].y));
    "CGAlgorithmsDD::filter": CGAlgorithmsDD::orientation_index_filter(a[0].x, a[0].y, a[1].x, a[1].y, a[2].x, a[2].y);
    "CGAlgorithmsDD::sign_of_det2x2": CGAlgorithmsDD::sign_of_det2x2_f64(a[0].x, a[0].y, a[1].x, a[1].y);
    "CGAlgorithmsDD::intersection": CGAlgorithmsDD::intersection(&a[0], &a[1], &a[2], &a[3]);
    "Intersection::intersection": Intersection::intersection(&a[0], &a[1], &a[2], &a[3]);
    "Intersection::intersection_fp": Intersection::intersection_fp(&a[0], &a[1], &a[2], &a[3]);
    "Intersection::line_segment": Intersection::line_segment(&a[0], &a[1], &a[2], &a[3]);
    "HCoordinate::intersection": HCoordinate::intersection(&a[0], &a[1], &a[2], &a[3]);
    "HCoordinate": (HCoordinate::new_with_coordinates_4(&a[0], &a[1], &a[2], &a[3]), HCoordinate::new_with_coordinates(&a[0], &a[1]), HCoordinate::new_with_xyw(a[0].x, a[0].y, a[1].x), HCoordinate::new_with_coordinate(&a[0]).get_coordinate());
    "RobustLineIntersector": { let mut r = RobustLineIntersector::default(); let c = r.compute_intersect(&a[0], &a[1], &a[2], &a[3]); (c, (0..c as usize).map(|i| r.get_intersection(i)).collect::<Vec<_>>()) };
    "RobustLineIntersector::compute_intersection_4": { let r = rli(a, None); (r.has_intersection(), if r.has_intersection() { Some(r.get_intersection(0)) } else { None }) };
    "RobustLineIntersector::compute_intersection_3": { let mut r = RobustLineIntersector::default(); r.compute_intersection_3(&a[0], &a[1], &a[2]); r.has_intersection() };
    "RobustLineIntersector fixed precision": { let r = rli(a, Some(PrecisionModel::new_with_scale(10.0))); (r.has_intersection(), if r.has_intersection() { Some(r.get_intersection(0)) } else { None }) };
    "Distance::point_to_segment": Distance::point_to_segment(&a[0], &a[1], &a[2]);
    "Distance::perpendicular": (Distance::point_to_line_perpendicular(&a[0], &a[1], &a[2]), Distance::point_to_line_perpendicular_signed(&a[0], &a[1], &a[2]));
    "Distance::segment_to_segment": Distance::segment_to_segment(&a[0], &a[1], &a[2], &a[3]);
    "CGAlgorithms3D": (CGAlgorithms3D::distance(&a[0], &a[1]), CGAlgorithms3D::distance_point_segment(&a[0], &a[1], &a[2]), CGAlgorithms3D::distance_segment_segment(&a[0], &a[1], &a[2], &a[3]));
    "PointLocation::is_on_segment": PointLocation::is_on_segment(&a[0], &a[1], &a[2]);
    "Angle of vectors": (Angle::angle_coordinates(&a[0], &a[1]), Angle::angle_coordinate(&a[0]));
    "Angle::is_acute": (Angle::is_acute(&a[0], &a[1], &a[2]), Angle::is_obtuse(&a[0], &a[1], &a[2]));
    "Angle::angle_between": (Angle::angle_between(&a[0], &a[1], &a[2]), Angle::angle_between_oriented(&a[0], &a[1], &a[2]), Angle::interior_angle(&a[0], &a[1], &a[2]));
    "Angle::bisector": Angle::bisector(&a[0], &a[1], &a[2]);
    "Angle::project": Angle::project(&a[0], a[1].x, a[1].y);
    "Coordinate comparisons": (a[0].compare_to(&a[1]), a[0].equals_2d(&a[1]), a[0].equals_3d(&a[1]));
    "Coordinate tolerances": (a[0].equals_2d_with_tolerance(&a[1], a[2].x), a[0].equal_in_z(&a[1], a[2].x), Geometry::equal(&a[0], &a[1], a[2].x), Coordinates::equal(&a[0], &a[1], a[2].x));
    "Coordinate distances": (a[0].distance(&a[1]), a[0].distance_3d(&a[1]));
    "Coordinate text": (format!("{}", a[0]), Coordinates::dimension(&a[0]), Coordinates::measures(&a[0]));
    "LineSegment extents": { let s = seg(&a[0], &a[1]); ([s.min_x(), s.max_x(), s.min_y(), s.max_y()], s.get_length(), s.is_horizontal(), s.is_vertical()) };
    "LineSegment::angle": (seg(&a[0], &a[1]).angle(), seg(&a[0], &a[1]).mid_point(), LineSegment::mid_point_coordinates(&a[0], &a[1]));
    "LineSegment orientation": (seg(&a[0], &a[1]).orientation_index_line_segment(&seg(&a[2], &a[3])), seg(&a[0], &a[1]).orientation_index_coordinate(&a[2]));
    "LineSegment distances": (seg(&a[0], &a[1]).distance_line_segment(&seg(&a[2], &a[3])), seg(&a[0], &a[1]).distance_coordinate(&a[2]), seg(&a[0], &a[1]).distance_perpendicular(&a[2]), seg(&a[0], &a[1]).distance_perpendicular_oriented(&a[2]));
    "LineSegment::point_along": (seg(&a[0], &a[1]).point_along(a[2].x), seg(&a[0], &a[1]).point_along_offset(a[2].x, if a[0].x == a[1].x && a[0].y == a[1].y { 0.0 } else { a[2].y }));
    "LineSegment::projection_factor": (seg(&a[0], &a[1]).projection_factor(&a[2]), seg(&a[0], &a[1]).segment_fraction(&a[2]), seg(&a[0], &a[1]).project_coordinate(&a[2]), seg(&a[0], &a[1]).project_coordinate_with_projection_factor(&a[2], a[3].x));
    "LineSegment::project_line_segment": seg(&a[0], &a[1]).project_line_segment(&seg(&a[2], &a[3]));
    "LineSegment::offset": seg(&a[0], &a[1]).offset(a[2].x);
    "LineSegment::reflect": (seg(&a[0], &a[1]).reflect(&a[2]), seg(&a[0], &a[1]).closest_point(&a[2]));
    "LineSegment::closest_points": seg(&a[0], &a[1]).closest_points(&seg(&a[2], &a[3]));
    "LineSegment::intersection": (seg(&a[0], &a[1]).intersection(&seg(&a[2], &a[3])), seg(&a[0], &a[1]).line_intersection(seg(&a[2], &a[3])));
    "LineSegment comparisons": (seg(&a[0], &a[1]).equals(&seg(&a[2], &a[3])), seg(&a[0], &a[1]).compare_to(&seg(&a[2], &a[3])), seg(&a[0], &a[1]).equals_topo(&seg(&a[2], &a[3])));
    "LineSegment direction": (ch(seg(&a[0], &a[1]), |s| s.normalize()), ch(seg(&a[0], &a[1]), |s| s.reverse()));
    "Envelope of points": (Envelope::intersects_3(&a[0], &a[1], &a[2]), Envelope::intersects_4(&a[0], &a[1], &a[2], &a[3]), env(&a[0], &a[1]), Envelope::new_coordinate(&a[0]));
    "Envelope measures": { let e = env(&a[0], &a[1]); ([e.get_width(), e.get_height(), e.get_diameter(), e.get_area()], e.min_extent(), e.max_extent(), e.centre()) };
    "Envelope predicates": { let (e, f) = (env(&a[0], &a[1]), env(&a[2], &a[3])); [e.intersects_envelope(&f), e.disjoint_envelope(&f), e.overlaps_envelope(&f), e.contains_envelope(&f), e.contains_properly(&f), e.covers_envelope(&f), e.equals(&f)] };
    "Envelope point predicates": { let e = env(&a[0], &a[1]); [e.intersects_coordinate(&a[2]), e.overlaps_coordinate(&a[2]), e.contains_coordinate(&a[2]), e.covers_coordinate(&a[2]), e.intersects_xy(a[2].x, a[2].y), e.intersects_coordinate_ab(&a[2], &a[3])] };
    "Envelope pairs": { let (e, f) = (env(&a[0], &a[1]), env(&a[2], &a[3])); (e.distance_envelope(&f), e.compare_to_envelope(&f), e.intersection_envelope(&f)) };
    "Envelope growth": { let e = env(&a[0], &a[1]); (ch(e, |e| e.expand_to_include_coordinate(&a[2])), ch(e, |e| e.expand_to_include_envelope(&env(&a[2], &a[3]))), ch(e, |e| e.expand_by_delta_xy(a[2].x, a[2].y)), ch(e, |e| e.translate(a[2].x, a[2].y))) };
    "OctagonalEnvelope": { let (e, f) = (oct(&a[0], &a[1]), oct(&a[2], &a[3])); (e.is_valid(), e.intersects_octagonal_envelope(&f), e.contains_octagonal_envelope(&f), e.intersects_coordinate(&a[2])) };
    "OctagonalEnvelope growth": { let mut e = oct(&a[0], &a[1]); e.expand_to_include_octagonal_envelope(&oct(&a[2], &a[3])); e.expand_to_include_envelope(&env(&a[1], &a[3])); e.expand_by_distance(a[2].x); e };
    "Triangle::is_acute": (Triangle::is_acute_coordinates(&a[0], &a[1], &a[2]), Triangle::is_ccw_coordinates(&a[0], &a[1], &a[2]), Triangle::intersects_coordinates(&a[0], &a[1], &a[2], &a[3]));
    "Triangle::perpendicular_bisector": Triangle::perpendicular_bisector_coordinates(&a[0], &a[1]);
    "Triangle::circumcentre": (Triangle::circumradius_coordinates(&a[0], &a[1], &a[2]), Triangle::circumcentre_coordinates(&a[0], &a[1], &a[2]), Triangle::circumcentre_dd_coordinates(&a[0], &a[1], &a[2]));
    "Triangle centres": (Triangle::in_centre_coordinates(&a[0], &a[1], &a[2]), Triangle::centroid_coordinates(&a[0], &a[1], &a[2]), Triangle::angle_bisector_coordinates(&a[0], &a[1], &a[2]));
    "Triangle measures": ([Triangle::length_coordinates(&a[0], &a[1], &a[2]), Triangle::longest_side_length_coordinates(&a[0], &a[1], &a[2])], Triangle::area_coordinates(&a[0], &a[1], &a[2]), Triangle::signed_area_coordinates(&a[0], &a[1], &a[2]), Triangle::area_3d_coordinates(&a[0], &a[1], &a[2]));
    "Triangle::interpolate_z": Triangle::interpolate_z_coordinates(&a[3], &a[0], &a[1], &a[2]);
    "Triangle object": { let t = Triangle::new(&a[0], &a[1], &a[2]); (t.in_centre(), t.circumcentre(), t.centroid(), [t.circumradius(), t.length(), t.area(), t.area_3d(), t.interpolate_z(&a[3])]) };
    "Centroid of a triangle": (Centroid::area2(&a[0], &a[1], &a[2]), ch(Coordinate::create(), |c| Centroid::centroid3(&a[0], &a[1], &a[2], c)));
    "Vector2D": { let (u, v) = (Vector2D::new_from_coordinate_from_to(&a[0], &a[1]), Vector2D::new_from_coordinate_from_to(&a[2], &a[3])); (u.add(&v), u.subtract(&v), [u.length(), u.length_squared(), u.dot(&v), u.distance(&v), u.angle(), u.angle_vector_2d(&v)], (u.is_parallel(&v), u.equals(&v), u.to_string())) };
    "Vector2D more": { let (u, v) = (Vector2D::new_from_coordinate(&a[0]), Vector2D::new_from_coordinate(&a[1])); (u.normalize(), u.average(&v), u.weighted_sum(&v, a[2].x), (u.rotate(a[2].x), u.translate(&a[2]), u.multiply(a[2].x), u.divide(a[2].x))) };
    "Vector2D::angle_to": Vector2D::new_from_coordinate(&a[0]).angle_to(&Vector2D::new_from_coordinate(&a[1]));
    "Vector3D": { let (u, v) = (Vector3D::new_from_to_coordinates(&a[0], &a[1]), Vector3D::new_from_to_coordinates(&a[2], &a[3])); (u.add(&v), u.subtract(&v), [u.length(), u.dot(&v), Vector3D::dot_4(&a[0], &a[1], &a[2], &a[3]), Vector3D::dot_2(&a[0], &a[1]), Vector3D::length_of_coordinate(&a[0])], (u.equals(&v), u.to_string(), u.normalize(), Vector3D::normalize_coordinate(&a[0]))) };
    "RayCrossingCounter": { let mut r = RayCrossingCounter::new_with_coordinate(&a[0]); r.count_segment(&a[1], &a[2]); r.count_segment(&a[2], &a[3]); r.count_segment(&a[3], &a[1]); (r.get_count(), r.is_on_segment(), r.get_location(), r.is_point_in_polygon()) };
};
/// a quadrant of the null vector is refused, so is any operation that needs a direction
fn quadrants(a: &C4) -> u64 {
    let mut h = H(1);
    let (dx, dy) = (a[1].x - a[0].x, a[1].y - a[0].y);
    if !(dx == 0.0 && dy == 0.0) { Quadrant::quadrant_xy(dx, dy).bits(&mut h); }
    if !(a[0].x == a[1].x && a[0].y == a[1].y) { Quadrant::quadrant_coordinates(&a[0], &a[1]).bits(&mut h); }
    h.0
}

// ---- operations on a sequence of points and one more ----
struct S { v: Vec<Coordinate>, w: Vec<Coordinate>, p: Coordinate, cas: CoordinateArraySequence, pk: PackedCoordinateSequenceDouble }
fn ring(s: &S) -> Vec<Coordinate> { let mut v = s.v.clone(); if !v.is_empty() { v.push(v[0]); } v }
fn cas(v: &Vec<Coordinate>) -> CoordinateArraySequence { CoordinateArraySequence::new_with_coordinates(v) }
fn ls(v: &Vec<Coordinate>) -> LineString { LineString::new_from_coordinate_sequence(cas(v)) }
fn lr(v: &Vec<Coordinate>) -> LinearRing { LinearRing::new_with_coordinates(v) }
fn poly(s: &S) -> Polygon { let h = closed(&s.w); Polygon::new_with_linear_ring_vec(&lr(&ring(s)), &if h.is_empty() || s.v.is_empty() { vec![] } else { vec![lr(&h)] }) }
fn closed(v: &Vec<Coordinate>) -> Vec<Coordinate> { let mut v = v.clone(); if !v.is_empty() { v.push(v[0]); } v }
const SEQS: &[Op<S>] = table! { S, s;
    "PointLocation": { let r = ring(s); (PointLocation::is_in_ring(&s.p, &r), PointLocation::locate_in_ring(&s.p, &r), PointLocation::is_on_line_coordinates(&s.p, &s.v), PointLocation::is_on_line_coordinate_array_sequence(&s.p, &s.cas)) };
    "RayCrossingCounter": { let r = ring(s); (RayCrossingCounter::locate_point_in_ring_vec(&s.p, &r), RayCrossingCounter::locate_point_in_ring_coordinate_array_sequence(&s.p, &cas(&r)), RayCrossingCounter::locate_point_in_ring_packed_coordinate_sequence(&s.p, &s.pk)) };
    "Area": { let r = ring(s); (Area::of_ring_vec(&r), Area::of_ring_signed_vec(&r), Area::of_ring_coordinate_sequence(&cas(&r)), Area::of_ring_signed_coordinate_sequence(&cas(&r))) };
    "Length": Length::of_line(&s.cas);
    "Orientation::is_ccw": { let r = ring(s); (Orientation::is_ccw_vec(&r), Orientation::is_ccw_coordinate_array_sequence(&cas(&r)), Orientation::is_ccw_area_vec(&r), Orientation::is_ccw_vec(&s.v)) };
    "Distance::point_to_segment_string": Distance::point_to_segment_string(&s.p, &s.v);
    "Centroid": (Centroid::get_centroid_from_polygon(&poly(s)), Centroid::get_centroid_from_multi_polygon(&MultiPolygon::new_with_polygons(&vec![poly(s), poly(s)])), Centroid::new_from_line_string(&ls(&s.v)).get_centroid());
    "CoordinateArrays properties": ((CoordinateArrays::dimension(&s.v), CoordinateArrays::measures(&s.v)), CoordinateArrays::is_ring(&s.v), CoordinateArrays::has_repeated_points(&s.v), CoordinateArrays::has_repeated_or_invalid_points(&s.v));
    "CoordinateArrays::remove": (CoordinateArrays::remove_repeated_points(&s.v), CoordinateArrays::remove_repeated_or_invalid_points(&s.v));
    "CoordinateArrays comparisons": (CoordinateArrays::compare(&s.v, &s.w), CoordinateArrays::increasing_direction(&s.v), CoordinateArrays::equals(&s.v, &s.w), if s.v.len() == s.w.len() { CoordinateArrays::is_equal_reversed(&s.v, &s.w) } else { false });
    "CoordinateArrays searches": (CoordinateArrays::pt_not_in_list(&s.v, &s.w), CoordinateArrays::index_of(&s.p, &s.v), CoordinateArrays::min_coordinate(&s.v));
    "CoordinateArrays::scroll": (ch(s.v.clone(), |v| CoordinateArrays::scroll_coordinate(v, &s.p)), ch(s.v.clone(), |v| if v.len() > 1 { CoordinateArrays::scroll_index(v, 1) }), ch(ring(s), |v| if v.len() > 2 { CoordinateArrays::scroll_index_ensure_ring(v, 1, true) }));
    "CoordinateArrays::enforce_consistency": (ch(s.v.clone(), |v| CoordinateArrays::enforce_consistency(v)), CoordinateArrays::enforce_consistency_dim_measures(&s.v, 3, 1), CoordinateArrays::enforce_consistency_dim_measures(&s.v, 2, 0));
    "CoordinateArrays boxes": { let e = env(&s.p, &s.w.first().copied().unwrap_or(s.p)); (CoordinateArrays::envelope(&s.v), CoordinateArrays::intersection(&s.v, &e)) };
    "CoordinateArrays parts": (CoordinateArrays::extract(&s.v, 0, s.v.len()), CoordinateArrays::extract(&s.v, 1, s.v.len()), CoordinateArrays::at_least_n_coordinates_or_nothing(3, &s.v), CoordinateArrays::copy_deep(&s.v));
    "CoordinateList": (CoordinateList::new_with_repeated(s.v.clone(), false).to_coordinate_array(), ch(CoordinateList::new(s.v.clone()), |l| l.close_ring()).to_coordinate_array_forward(false), ch(CoordinateList::new(s.v.clone()), |l| { l.add_coordinate_list_repeated_direction(&s.w, false, false); }).to_coordinate_array(), ch(CoordinateList::new(s.v.clone()), |l| l.add_index_coordinate_repeated(s.v.len(), s.p, false)).to_coordinate_array());
    "CoordinateArraySequence": (s.cas.copy(), (0..s.v.len()).map(|i| [s.cas.get_x(i), s.cas.get_y(i), s.cas.get_z(i), s.cas.get_m(i)]).collect::<Vec<_>>(), ch(Envelope::default(), |e| s.cas.expand_envelope(e)), format!("{}", s.cas));
    "CoordinateArraySequences": (ch(s.cas.copy(), |c| CoordinateArraySequences::reverse(c)), CoordinateArraySequences::is_ring(&s.cas), CoordinateArraySequences::ensure_valid_ring(&s.cas), CoordinateArraySequences::extend(&s.cas, s.v.len() + 2));
    "CoordinateArraySequences searches": (CoordinateArraySequences::is_equal(&s.cas, &cas(&s.w)), CoordinateArraySequences::min_coordinate(&s.cas), if s.v.is_empty() { 0 } else { CoordinateArraySequences::min_coordinate_index_sequence(&s.cas) }, CoordinateArraySequences::index_of(&s.p, &s.cas));
    "CoordinateArraySequences::scroll": (ch(s.cas.copy(), |c| CoordinateArraySequences::scroll_coordinate(c, &s.p)), ch(cas(&ring(s)), |c| if s.v.len() > 1 { CoordinateArraySequences::scroll_coordinate_index_ensure_ring(c, 1, true) }));
    "PackedCoordinateSequence": (s.pk.copy(), (0..s.v.len()).map(|i| s.pk.get_coordinate_by_index(i)).collect::<Vec<_>>(), s.pk.expand_envelope(&Envelope::default()), s.pk.get_raw_coordinates());
    "PackedCoordinateSequences": (ch(s.pk.copy(), |c| PackedCoordinateSequences::reverse(c)), PackedCoordinateSequences::is_ring(&s.pk), PackedCoordinateSequences::ensure_valid_ring(&s.pk), PackedCoordinateSequences::extend(&s.pk, s.v.len() + 2));
    "PackedCoordinateSequences searches": (PackedCoordinateSequences::is_equal(&s.pk, &PackedCoordinateSequenceDouble::new_with_coordinates(&s.w)), PackedCoordinateSequences::min_coordinate(&s.pk), PackedCoordinateSequences::index_of(&s.p, &s.pk), ch(s.pk.copy(), |c| PackedCoordinateSequences::scroll_coordinate(c, &s.p)));
    "CoordinateSequenceComparator": { let t = cas(&s.w); ([0, 1, 2, 3].map(|d| CoordinateSequenceComparator::new_with_dimension_limit(d).compare_coordinate_array_sequence(&s.cas, &t)), CoordinateSequenceComparator::default().compare_coordinate_array_sequence(&s.cas, &t)) };
    "LineString": { let l = ls(&s.v); (l.reverse(), l.copy(), (l.get_length(), l.is_closed(), l.is_ring(), l.is_coordinate(&s.p)), (l.compute_envelope_internal(), l.get_boundary_dimension(), l.get_start_point(), l.get_end_point())) };
    "LineString pairs": { let (l, m) = (ls(&s.v), ls(&s.w)); (l.equals_exact(&m, 0.0), l.equals_exact(&m, s.p.x), l.compare_to(&m), ch(l.copy(), |l| l.normalize())) };
    "LinearRing": { let mut l = lr(&ring(s)); (l.reverse(), l.get_length(), (l.is_closed(), l.get_boundary_dimension(), l.get_coordinate()), (l.get_envelope_internal(), l.compute_envelope_internal())) };
    "LinearRing pairs": { let (l, m) = (lr(&ring(s)), lr(&closed(&s.w))); (l.equals_exact(&m, 0.0), l.compare_to_same_class(&m), l.compare_to_same_class_with_comparator(&m, &CoordinateSequenceComparator::default())) };
    "Polygon": { let mut p = poly(s); (p.reverse(), p.copy(), (p.get_area(), p.get_length(), p.is_rectangle(), p.get_coordinates()), (p.compute_envelope_internal(), p.get_centroid(), p.get_coordinate())) };
    "Polygon::normalize": ch(poly(s), |p| p.self_normalize());
    "Polygon pairs": { let (p, q) = (poly(s), Polygon::new_with_linear_ring(&lr(&closed(&s.w)))); (p.equals_exact(&q, 0.0), p.equals_exact(&p, s.p.x), p.compare_to(&q), p.compare_to_with_comparator(&q, &CoordinateSequenceComparator::default())) };
    "MultiPolygon": { let m = MultiPolygon::new_with_polygons(&vec![poly(s), Polygon::new_with_linear_ring(&lr(&closed(&s.w)))]); (m.get_area(), m.get_centroid(), m.is_empty(), (m.reverse().get_area(), m.equals_exact(m.copy(), s.p.x), (0..2).map(|i| m.get_polygon_at_index(i)).collect::<Vec<_>>())) };
    "MultiLineString": { let m = MultiLineString::new_with_line_strings(&vec![ls(&s.v), ls(&s.w)]); (m.is_empty(), m.is_closed(), (m.get_dimension(), m.get_boundary_dimension()), m.equals_exact(&m.reverse(), s.p.x)) };
    "MultiPoint": { let m = GeometryFactory::create_multi_point_with_coordinates(&s.v); (m.is_empty(), m.get_coordinates(), m.reverse().get_coordinates(), (m.equals_exact(GeometryFactory::create_multi_point_with_coordinates(&s.w), s.p.x), ch(m, |m| { m.get_envelope_internal(); }).get_envelope_internal())) };
    "Point": { let mut p = Point::new_with_coordinate(&s.p, None); let q = s.v.first().map(|c| Point::new_with_coordinate(c, None)).unwrap_or(GeometryFactory::create_point()); (p.get_envelope_internal(), p.equals_exact(&q, s.p.y), p.compare_to_same_class(&q, &CoordinateSequenceComparator::default()), p.reverse()) };
    "OctagonalEnvelope::new_with_line_string": OctagonalEnvelope::new_with_line_string(&ls(&s.v));
};

// ---- operations on numbers ----
type F = [f64; 4];
fn d(hi: f64, lo: f64) -> DD { DD::new_hi_lo(hi, lo) }
fn turn(v: f64) -> f64 { if v.abs() > 1e4 { 1.0 } else { v } }
fn mat(f: &F) -> Vec<Vec<f64>> { vec![vec![f[0], f[1]], vec![f[2], f[3]]] }
const NUMS: &[Op<F>] = table! { F, f;
    "DD sums": (d(f[0], f[1]).add_dd(&d(f[2], f[3])), d(f[0], f[1]).subtract_dd(&d(f[2], f[3])), d(f[0], f[1]).add_f64(f[2]), d(f[0], f[1]).subtract_f64(f[2]));
    "DD products": (d(f[0], f[1]).multiply_dd(&d(f[2], f[3])), d(f[0], f[1]).divide_dd(&d(f[2], f[3])), d(f[0], f[1]).multiply_f64(f[2]), d(f[0], f[1]).divide_f64(f[2]));
    "DD in place": (ch(d(f[0], f[1]), |x| x.self_add_hi_lo(f[2], f[3])), ch(d(f[0], f[1]), |x| x.self_multiply_hi_lo(f[2], f[3])), ch(d(f[0], f[1]), |x| x.self_divide_hi_lo(f[2], f[3])), ch(d(f[0], f[1]), |x| x.self_sqr()));
    "DD parts": (d(f[0], f[1]).floor(), d(f[0], f[1]).ceil(), d(f[0], f[1]).trunc(), d(f[0], f[1]).rint());
    "DD functions": (d(f[0], f[1]).reciprocal(), d(f[0], f[1]).abs(), d(f[0], f[1]).sqr(), d(f[0], f[1]).negate());
    "DD::sqrt": (d(f[0], f[1]).sqrt_dd(), DD::value_of_f64(f[0]).sqrt_f64(f[1]));
    "DD::pow": [-70, -3, -1, 0, 1, 2, 3, 70].map(|n| d(f[0], f[1]).pow(n));
    "DD::determinant": (DD::determinant_xy_f64(f[0], f[1], f[2], f[3]), DD::determinant_xy_dd(&d(f[0], f[1]), &d(f[1], f[2]), &d(f[2], f[3]), &d(f[3], f[0])));
    "DD comparisons": { let (x, y) = (d(f[0], f[1]), d(f[2], f[3])); [x.gt(&y) as i32, x.ge(&y) as i32, x.lt(&y) as i32, x.le(&y) as i32, x.equals(&y) as i32, x.compare_to(&y), x.signum(), x.is_zero() as i32, x.is_negative() as i32, x.is_positive() as i32, x.is_nan() as i32, x.int_value()] };
    "DD choice": (d(f[0], f[1]).min(&d(f[2], f[3])), d(f[0], f[1]).max(&d(f[2], f[3])));
    "CGAlgorithmsDD::sign_of_det2x_2dd": (CGAlgorithmsDD::sign_of_det2x_2dd(&d(f[0], f[1]), &d(f[1], f[2]), &d(f[2], f[3]), &d(f[3], f[0])), CGAlgorithmsDD::signum(f[0]));
    "Angle": (Angle::to_degrees(f[0]), Angle::to_radians(f[0]), (Angle::sin_snap(f[0]), Angle::cos_snap(f[0])), (Angle::diff(turn(f[0]), turn(f[1])), Angle::get_turn(f[0], f[1]), Angle::normalize(turn(f[0])), Angle::normalize_positive(turn(f[0]))));
    "MathUtil": (MathUtil::average(f[0], f[1]), MathUtil::max_3(f[0], f[1], f[2]), MathUtil::max_4(f[0], f[1], f[2], f[3]), (MathUtil::min(f[0], f[1], f[2], f[3]), MathUtil::clamp_f64(f[0], f[1], f[2])));
    "MathUtil::quasirandom": (MathUtil::quasirandom_curr(f[0]), MathUtil::quasirandom_curr_alpha(f[0], f[1]));
    "NumberUtil": NumberUtil::equals_with_tolerance(f[0], f[1], f[2]);
    "CoordinateSequenceComparator::compare_f64": CoordinateSequenceComparator::compare_f64(f[0], f[1]);
    "Matrix::solve": Matrix::solve(&mut mat(f), &mut vec![f[0], f[3]]);
    "Triangle::det": Triangle::det_f64(f[0], f[1], f[2], f[3]);
    "PrecisionModel": { let f = &f.map(|v| if v.is_infinite() { 10.0 } else { v }); let mut p = PrecisionModel::new_with_scale(f[0]); (p.make_precise(f[1]), p.get_scale(), p.get_maximum_significant_digits(), (p.grid_size(), p.is_floating(), p.compare_to(&PrecisionModel::new_with_scale(f[2])), p.equals(PrecisionModel::new_with_scale(f[2])))) };
    "PrecisionModel single": { let mut p = PrecisionModel::new_with_type(PrecisionModelType::FloatingSingle); (p.make_precise(f[0]), ch(Coordinate::new_xy(f[1], f[2]), |c| p.make_precise_coordinate(c))) };
    "Envelope::expand_by": (ch(Envelope::new_xy(f[0], f[1], f[2], f[3]), |e| e.expand_by(f[0])), ch(Envelope::new_xy(f[0], f[1], f[2], f[3]), |e| e.expand_by(-f[3])), Envelope::default().distance_envelope(&Envelope::new_xy(f[0], f[1], f[2], f[3])));
};

// ---- operations on small and large integers, symbols and dimension matrices ----
type I3 = [i32; 3];
fn sym(v: i32) -> char { ['F', 'T', '*', '0', '1', '2', 'f', 't'][v.rem_euclid(8) as usize] }
fn pattern(a: &I3) -> String { (0..9).map(|k| sym(a[k % 3].wrapping_add(k as i32 / 3))).collect() }
fn mat9(a: &I3) -> IntersectionMatrix { let mut m = IntersectionMatrix::default(); for k in 0..9 { m.set_row_column_value(k / 3, k % 3, (a[k % 3].wrapping_add((k / 3) as i32)).clamp(-1, 2)); } m }
const INTS: &[Op<I3>] = table! { I3, a;
    "Dimension": (Dimension::to_dimension_symbol(a[0]), Dimension::to_dimension_value(sym(a[1])), Dimension::to_dimension_value(char::from_u32(a[2] as u32 & 0xFFFF).unwrap_or('x')));
    "Location and Position": (Location::to_location_symbol(a[0]), Position::opposite(a[0]));
    "Quadrant": { let q = a.map(|v| v.rem_euclid(4)); (Quadrant::is_opposite(q[0], q[1]), Quadrant::common_half_plane(q[0], q[1]), Quadrant::is_in_half_plane(q[0], q[1]), Quadrant::is_northern(a[2])) };
    "MathUtil": (MathUtil::clamp_i32(a[0], a[1], a[2]), MathUtil::clamp_max(a[0], a[1]), if a[1] > 0 { MathUtil::wrap(a[0], a[1]) } else { 0 }, if a[1] > 0 { MathUtil::ceil(a[0], a[1]) } else { 0 });
    "DD::pow": [d(1.5, 0.0).pow(a[0]), d(-3.0, 0.0).pow(a[1]), d(1.0 + f64::EPSILON, 1e-17).pow(a[2]), d(-1.0, 0.0).pow(a[0])];
    "IntersectionMatrix::matches": (IntersectionMatrix::matches_i32_char(a[0], sym(a[1])), IntersectionMatrix::matches_string_string(mat9(a).to_string(), pattern(a)), mat9(a).matches_string(pattern(&[a[1], a[2], a[0]])), mat9(a).is_true(a[0]));
    "IntersectionMatrix predicates": { let m = mat9(a); [m.is_disjoint(), m.is_intersects(), m.is_touches(a[0], a[1]), m.is_crosses(a[0], a[1]), m.is_within(), m.is_contains(), m.is_covers(), m.is_covered_by(), m.is_equals(a[0], a[1]), m.is_overlaps(a[0], a[1])] };
    "IntersectionMatrix changes": (ch(mat9(a), |m| m.transpose()).to_string(), ch(mat9(a), |m| m.set_at_least_row_column_dimension(0, 1, a[0].clamp(-3, 2))).to_string(), ch(mat9(a), |m| m.add(&mat9(&[a[2], a[0], a[1]]))).to_string(), ch(mat9(a), |m| m.set_string(pattern(a))).to_string());
    "CoordinateArraySequence::create_coordinate": [(2, 0), (3, 0), (3, 1), (4, 1 + 0 * a[0])].map(|(d, m)| CoordinateArraySequence::create_coordinate(d, m));
};

fn xs(n: usize) -> Vec<f64> { [0.0, NAN, 1.0, INF, -1.5, -0.0, f64::MAX, 5e-324, f64::NEG_INFINITY, 3.0, 1e-300, 0.1, 1e200, -2.0, 1.0 + f64::EPSILON, -1e-160][..n].to_vec() }
fn zs(k: usize, i: usize) -> f64 { match k { 0 => NAN, 1 => [0.0, 7.0, -2.0, 7.0][i], _ => [INF, NAN, 0.0, 1.0][i] } }

/// every operation of a table on one input answers, and twice the same, forwards and backwards
fn sweep<T>(ops: &[Op<T>], a: &T, x: &mut Ctx) -> Res {
    let mut first = [0u64; 128];
    for (k, (_, f)) in ops.iter().enumerate() { first[k] = f(a); }
    for (k, (n, f)) in ops.iter().enumerate().rev() { ensure!(f(a) == first[k], "{} answers differently the second time", n); }
    x.t(2 * ops.len() as u64);
    Ok(())
}
fn points(al: &[f64], nz: usize, i: u64) -> C4 {
    let mut q = Dec(i);
    let z = q.take(nz);
    std::array::from_fn(|k| { let (a, b) = (*q.of(al), *q.of(al)); Coordinate::new_xyz(a, b, zs(z, k)) })
}
fn seqn(al: &[(f64, f64)], lo: usize, hi: usize, i: u64) -> S {
    let mut q = Dec(i);
    let lay = q.take(3);
    let mk = |j: usize, k: usize| match lay { 0 => Coordinate::new_xy(al[j].0, al[j].1), 1 => Coordinate::new_xyz(al[j].0, al[j].1, [1.0, NAN, INF][k % 3]), _ => Coordinate::new_xyzm(al[j].0, al[j].1, k as f64, [NAN, 2.0][k % 2]) };
    let p = mk(q.take(al.len()), 1);
    let v: Vec<Coordinate> = seq(&mut q, al.len(), lo, hi).into_iter().enumerate().map(|(k, j)| mk(j, k)).collect();
    let w: Vec<Coordinate> = match q.take(3) { 0 => v.iter().rev().copied().collect(), 1 => vec![], _ => vec![mk(0, 0), mk(1, 1), mk(2, 2), mk(1, 3)] };
    let pk = PackedCoordinateSequenceDouble::new_with_coordinates(&v);
    S { cas: cas(&v), pk, v, w, p }
}
/// all ordered pairs of calls: the second call answers what it answers alone
fn pairs<T: Sync>(k: &mut Check, name: &str, ops: &'static [Op<T>], ins: &[T]) {
    let n = ins.len();
    let m = (ops.len() * n) as u64;
    let memo: Vec<OnceLock<Result<u64, String>>> = (0..m).map(|_| OnceLock::new()).collect();
    let alone = |c: u64| memo[c as usize].get_or_init(|| guarded(|| (ops[c as usize / n].1)(&ins[c as usize % n])));
    k.family(name, m, |c, x| {
        let (f, i) = (ops[c as usize / n].1, c as usize % n);
        x.note(|| format!("{} on input {} before every other call", ops[c as usize / n].0, i));
        for e in 0..m {
            let want = alone(e).clone()?;
            f(&ins[i]);
            let (g, j) = (&ops[e as usize / n], e as usize % n);
            ensure!((g.1)(&ins[j]) == want, "{} on input {} answers differently after {} on input {}", g.0, j, ops[c as usize / n].0, i);
        }
        x.t(2 * m);
        Ok(())
    });
}

/// all histories of three calls of one operation: each answers what it answers alone
fn triples<T: Sync>(k: &mut Check, name: &str, ops: &'static [Op<T>], ins: &[T]) {
    let n = ins.len();
    let memo: Vec<OnceLock<Result<u64, String>>> = (0..ops.len() * n).map(|_| OnceLock::new()).collect();
    k.family(name, (ops.len() * n) as u64, |c, x| {
        let (o, i) = (c as usize / n, c as usize % n);
        let f = ops[o].1;
        x.note(|| format!("{} on input {}, then on any other, then on any third", ops[o].0, i));
        let mut want = vec![0; n];
        for (j, w) in want.iter_mut().enumerate() { *w = memo[o * n + j].get_or_init(|| guarded(|| f(&ins[j]))).clone()?; }
        for p in 0..n { for q in 0..n {
            let got = [f(&ins[i]), f(&ins[p]), f(&ins[q])];
            ensure!(got == [want[i], want[p], want[q]], "{} answers differently among the three calls on inputs {}, {}, {}", ops[o].0, i, p, q);
        } }
        x.t(3 * (n * n) as u64);
        Ok(())
    });
}

fn main() {
    let mut k = Check::new("P27");
    let al = xs(k.q(6, 7));
    let nz = k.q(1, 3);
    k.family("points of any value", pow(al.len(), 8) * nz as u64, |i, x| {
        let a = points(&al, nz, i);
        x.note(|| format!("{:?}", a.map(|c| (c.x, c.y, c.z))));
        sweep(POINTS, &a, x)?;
        let q = quadrants(&a);
        ensure!(quadrants(&a) == q, "quadrants differ the second time");
        Ok(())
    });
    {
        // more values on fewer points, with Z
        let al = xs(k.q(12, 16));
        k.family("two points of any value", pow(al.len(), 4) * 3 * 2, |i, x| {
            let mut q = Dec(i);
            let (z, e) = (q.take(3), q.bit());
            let p = [0, 1].map(|_| (*q.of(&al), *q.of(&al)));
            let a: C4 = std::array::from_fn(|k| { let (a, b) = if e { p[k / 2] } else { p[k % 2] }; Coordinate::new_xyz(a, b, zs(z, k)) });
            x.note(|| format!("{:?}", a.map(|c| (c.x, c.y, c.z))));
            sweep(POINTS, &a, x)
        });
    }
    let nums = xs(12);
    k.family("numbers of any value", pow(12, 4), |i, x| {
        let mut q = Dec(i);
        let a: F = std::array::from_fn(|_| *q.of(&nums));
        x.note(|| format!("{:?}", a));
        sweep(NUMS, &a, x)
    });
    let pt = [(0.0, 0.0), (1.0, 0.0), (1.0, 2.0), (NAN, 1.0), (INF, -1.0), (f64::MAX, -f64::MAX), (-0.0, NAN)];
    let pt = &pt[..k.q(6, 7)];
    let hi = k.q(4, 5);
    k.family("sequences of any value", 3 * 3 * pt.len() as u64 * seqs(pt.len(), 0, hi), |i, x| {
        let s = seqn(pt, 0, hi, i);
        x.note(|| format!("{:?} and {:?}", s.v.iter().map(|c| (c.x, c.y, c.z, c.m)).collect::<Vec<_>>(), (s.p.x, s.p.y)));
        sweep(SEQS, &s, x)
    });
    // many holes, some with ordinates that compare with nothing: sorting must cope
    k.family("polygons of many holes", 60 * 7 * 6 * 6 * 6 * 3, |i, x| {
        let mut q = Dec(i);
        let (n, step, a, m1, m2, kind) = (q.take(60) + 2, q.take(7) + 1, q.take(6), *q.of(&[1, 5, 17, 23, 29, 60]), *q.of(&[1, 7, 12, 31, 44, 60]), q.take(3));
        let special = [NAN, INF, f64::NEG_INFINITY, -0.0, f64::MAX, 5e-324][a];
        let hole = |j: usize| {
            let (o, e) = ((j * m1 % 61) as f64, (j * m2 % 61) as f64);
            let mut v = vec![Coordinate::new_xy(o, e), Coordinate::new_xy(o + 1.0, e), Coordinate::new_xy(o, e + 1.0), Coordinate::new_xy(o, e)];
            if j % step == 0 { match kind { 0 => v[j / step % 3].x = special, 1 => v[j / step % 3].y = special, _ => for c in v.iter_mut() { c.x = special } } v[3] = v[0]; }
            lr(&v)
        };
        let s = [(-1.0, -1.0), (70.0, -1.0), (70.0, 70.0), (-1.0, 70.0), (-1.0, -1.0)].map(|p| Coordinate::new_xy(p.0, p.1)).to_vec();
        x.note(|| format!("{} holes, {} in every {}th", n, special, step));
        let p = Polygon::new_with_linear_ring_vec(&lr(&s), &(0..n).map(hole).collect());
        let f = |p: &Polygon| { let mut h = H(1); ch(p.copy(), |p| p.self_normalize()).bits(&mut h); p.get_area().bits(&mut h); p.get_centroid().bits(&mut h); h.0 };
        x.t(6);
        ensure!(f(&p) == f(&p), "a polygon normalizes to another form the second time");
        Ok(())
    });
    let ints = [0, 1, 2, 3, -1, -2, -3, 4, 7, 100, i32::MAX, i32::MIN];
    k.family("integers of any value", pow(12, 3), |i, x| {
        let mut q = Dec(i);
        let a: I3 = std::array::from_fn(|_| *q.of(&ints));
        x.note(|| format!("{:?}", a));
        sweep(INTS, &a, x)
    });
    // histories of calls: some inputs, each with one value changed, so that every two share most of what they hold
    let base: [[f64; 12]; 3] = [[0.0, 0.0, 4.0, 2.0, 1.0, 3.0, 3.0, -1.0, 1.0, 2.0, 3.0, 4.0], [1.5, -2.0, 1.5, 7.0, -3.0, 2.25, 6.0, 2.25, NAN, NAN, NAN, NAN], [10.0, 10.0, 16.0, 12.0, 13.0, 11.0, 19.0, 13.0, 5.0, 5.0, 0.0, 0.5]];
    let mut ord: Vec<C4> = vec![];
    let pts4 = |v: &[f64; 12]| -> C4 { std::array::from_fn(|k| Coordinate::new_xyz(v[2 * k], v[2 * k + 1], v[8 + k])) };
    for b in base {
        ord.push(pts4(&b));
        for j in 0..12 { for w in 0..k.q(1, 3) { let mut v = b; v[j] = if v[j].is_nan() { w as f64 } else { v[j] + [1.0, -2.0, 1e-12][w] }; ord.push(pts4(&v)); } }
        ord.push([1, 0, 2, 3].map(|j| pts4(&b)[j]));
        ord.push([2, 3, 0, 1].map(|j| pts4(&b)[j]));
    }
    pairs(&mut k, "pairs of calls on points", POINTS, &ord);
    triples(&mut k, "three calls of one operation on points", POINTS, &ord);
    // the same on nearly collinear points and points nearly equal, where the last bits decide
    let mut near: Vec<C4> = vec![];
    for b in [[0.0, 0.0, 1.0, 1.0, 0.5, 0.5, 2.0, 2.0], [12.0, 12.0, 24.0, 24.0, 0.5, 0.5, 1.0 / 3.0, 1.0 / 3.0]].into_iter().take(k.q(1, 2)) {
        let b: [f64; 12] = std::array::from_fn(|j| if j < 8 { b[j] } else { j as f64 });
        near.push(pts4(&b));
        let up = |v: &mut f64, u: i64| *v = if *v == 0.0 { u as f64 * 1e-17 } else { geosmc::num::ulp(*v, u) };
        for j in 0..8 { for u in [1, -1] { let mut v = b; up(&mut v[j], u); near.push(pts4(&v)); } }
        for j in 0..6 { for l in 0..j { let mut v = b; up(&mut v[j], 1); up(&mut v[l], 1); near.push(pts4(&v)); } }
    }
    pairs(&mut k, "pairs of calls on nearly collinear points", POINTS, &near);
    triples(&mut k, "three calls of one operation on nearly collinear points", POINTS, &near);
    let ring0 = [(0.0, 0.0), (4.0, 0.0), (4.0, 3.0), (1.0, 4.0), (-1.0, 2.0), (6.0, 7.0)];
    let mut sq: Vec<S> = vec![];
    for lay in 0..k.q(2, 3) { for n in [3, 5] {
        for j in 0..2 * n + 4 {
            // all the points, then one of them moved, then the extra point moved, then all reversed, then the last bit of one
            let mut al = ring0[..n].to_vec();
            let mut p = (1.0, 1.0);
            if j < n { al[j].0 += 1.0 } else if j < 2 * n { al[j - n].1 -= 0.5 } else if j == 2 * n { p = (4.0, 2.0) } else if j == 2 * n + 1 { al.reverse() } else if j == 2 * n + 2 { al[1].0 = geosmc::num::ulp(al[1].0, 1) }
            let mk = |q: (f64, f64), k: usize| [Coordinate::new_xy(q.0, q.1), Coordinate::new_xyzm(q.0, q.1, k as f64, 2.0), Coordinate::new_xyz(q.0, q.1, 3.0)][lay];
            let v: Vec<Coordinate> = al.iter().enumerate().map(|(k, q)| mk(*q, k)).collect();
            let w = if j % 2 == 0 { v.iter().rev().copied().collect() } else { vec![mk((0.0, 0.0), 0), mk((1.0, 0.0), 1), mk((1.0, 1.0), 2)] };
            sq.push(S { cas: cas(&v), pk: PackedCoordinateSequenceDouble::new_with_coordinates(&v), v, w, p: mk(p, 9) });
        }
    } }
    pairs(&mut k, "pairs of calls on sequences", SEQS, &sq);
    triples(&mut k, "three calls of one operation on sequences", SEQS, &sq);
    let mut nm: Vec<F> = vec![];
    for b in [[1.0, 0.0, 2.0, 0.0], [3.5, 1e-17, -0.25, 1e-20], [10.0, 2.0, 3.0, 7.0], [-4.0, 1.0, 0.5, 0.0]] {
        nm.push(b);
        for j in 0..4 { for w in [1.0, -3.0, 0.5] { let mut v = b; v[j] += w; nm.push(v); } let mut v = b; v[j] = geosmc::num::ulp(v[j], 1); nm.push(v); }
    }
    pairs(&mut k, "pairs of calls on numbers", NUMS, &nm);
    triples(&mut k, "three calls of one operation on numbers", NUMS, &nm);
    let it: Vec<I3> = (0..27).map(|i| [i % 3 - 1, i / 3 % 3, i / 9 * 2 - 1]).collect();
    pairs(&mut k, "pairs of calls on integers", INTS, &it);
    triples(&mut k, "three calls of one operation on integers", INTS, &it);
    k.finish()
}
