// P17 Geometry measures and accessors agree with their coordinates
use geos_rs::verif::*;
use geosmc::{ensure, geo::*, mc::*, num::*};
type V = Vec<Coordinate>;
fn eq(a: &Coordinate, b: &Coordinate) -> bool { same(a.x, b.x) && same(a.y, b.y) && same(a.z, b.z) && same(a.m, b.m) }
fn eqv(a: &V, b: &V) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(p, q)| eq(p, q)) }
fn sh(v: &V) -> String { format!("[{}]", v.iter().map(|c| format!("({},{},{},{})", c.x, c.y, c.z, c.m)).collect::<Vec<_>>().join(" ")) }
fn s2(a: &Coordinate, b: &Coordinate) -> bool { a.x == b.x && a.y == b.y }
macro_rules! is { ($g:expr, $w:expr, $v:expr, $($a:tt)*) => { { let (g, w) = ($g, $w); ensure!(g == w, "{} of {} = {:?} not {:?}", format!($($a)*), sh($v), g, w); } } }
macro_rules! isv { ($g:expr, $w:expr, $v:expr, $($a:tt)*) => { { let (g, w) = ($g, $w); ensure!(eqv(&g, &w), "{} of {} = {} not {}", format!($($a)*), sh($v), sh(&g), sh(&w)); } } }
const SYM: [(f64, f64); 5] = [(0.0, 0.0), (3.0, 4.0), (1.0, 0.0), (-1.0, 2.0), (3.0, -0.0)];
fn lay(p: (f64, f64), k: usize, l: usize) -> Coordinate {
    let (z, m) = (10.0 + k as f64, -5.0 - k as f64);
    match l { 0 => Coordinate::new_xy(p.0, p.1), 1 => Coordinate::new_xyz(p.0, p.1, z), 2 => Coordinate::new_xym(p.0, p.1, m), _ => Coordinate::new_xyzm(p.0, p.1, z, m) }
}
fn pts(s: &[usize], l: usize) -> V { s.iter().enumerate().map(|(k, i)| lay(SYM[*i], k, l)).collect() }
fn env_ok(e: &Envelope, v: &V) -> bool {
    if v.is_empty() { return e.is_null(); }
    let f = |g: fn(&Coordinate) -> f64, h: fn(f64, f64) -> f64| v.iter().map(g).reduce(h).unwrap();
    !e.is_null() && e.get_min_x() == f(|c| c.x, f64::min) && e.get_max_x() == f(|c| c.x, f64::max) && e.get_min_y() == f(|c| c.y, f64::min) && e.get_max_y() == f(|c| c.y, f64::max)
}
fn len(v: &V) -> f64 { v.windows(2).map(|w| ((w[0].x - w[1].x).powi(2) + (w[0].y - w[1].y).powi(2)).sqrt()).sum() }
fn area(v: &V) -> f64 { if v.len() < 3 { return 0.0; } (v.windows(2).map(|w| w[0].x * w[1].y - w[1].x * w[0].y).sum::<f64>() / 2.0).abs() }
fn num(g: f64, w: f64) -> bool { (g - w).abs() <= 1e-9 * w.abs().max(1.0) }
fn closed(v: &V) -> bool { !v.is_empty() && s2(&v[0], &v[v.len() - 1]) }
fn opt(c: Option<Coordinate>, w: Option<&Coordinate>) -> bool { match (c, w) { (None, None) => true, (Some(a), Some(b)) => eq(&a, b), _ => false } }
/// every way to make a sequence of these coordinates
fn seqs_of(v: &V) -> Vec<CoordinateArraySequence> {
    vec![CoordinateArraySequence::new_with_coordinates(v), CoordinateArraySequenceFactory::create_from_coordinates(v), CoordinateArraySequence::new_from_coordinate_array_sequence(&CoordinateArraySequence::new_with_coordinates(v))]
}
fn point_is(p: &Point, w: Option<&Coordinate>, x: &mut Ctx) -> Res {
    let e = w.is_none();
    let v: V = w.into_iter().copied().collect();
    is!(p.is_empty(), e, &v, "point emptiness");
    is!(p.get_num_points(), v.len(), &v, "point count");
    ensure!(opt(p.get_coordinate(), w) && p.get_x() == w.map(|c| c.x) && p.get_y() == w.map(|c| c.y), "coordinate of point {}", sh(&v));
    isv!(p.get_coordinates(), v.clone(), &v, "coordinates of point");
    ensure!(env_ok(&p.compute_envelope_internal(), &v) && env_ok(&p.clone().get_envelope_internal(), &v), "envelope of point {}", sh(&v));
    is!(p.get_coordinate_sequence().size(), v.len(), &v, "sequence size of point");
    ensure!(p.is_simple() && p.get_geometry_type() == "Point", "type of point");
    x.t(10);
    Ok(())
}
fn line_is(l: &LineString, v: &V, x: &mut Ctx) -> Res {
    let n = v.len();
    is!(l.is_empty(), n == 0, v, "line emptiness");
    is!(l.get_num_points(), n, v, "line point count");
    isv!(l.get_coordinates(), v.clone(), v, "line coordinates");
    isv!(l.get_coordinate_sequence().to_coordinate_array(), v.clone(), v, "line sequence");
    ensure!(opt(l.get_coordinate(), v.first()), "first coordinate of line {}", sh(v));
    for i in 0..n { ensure!(eq(&l.get_coordinate_n(i), &v[i]), "coordinate {} of line {}", i, sh(v)); point_is(&l.get_point_n(i), Some(&v[i]), x)?; }
    match (l.get_start_point(), l.get_end_point()) {
        (None, None) => ensure!(n == 0, "end points of line {} are missing", sh(v)),
        (Some(a), Some(b)) => { ensure!(n > 0, "end points of the empty line"); point_is(&a, Some(&v[0]), x)?; point_is(&b, Some(&v[n - 1]), x)?; }
        _ => return Err(format!("one end point of line {}", sh(v))),
    }
    is!(l.is_closed(), closed(v), v, "line closedness");
    is!(l.is_ring(), closed(v), v, "line ringness");
    is!(l.get_dimension(), 1, v, "line dimension");
    is!(l.get_boundary_dimension(), if closed(v) { Dimension::FALSE } else { 0 }, v, "line boundary dimension");
    ensure!(num(l.get_length(), len(v)), "length of line {} = {} not {}", sh(v), l.get_length(), len(v));
    ensure!(env_ok(&l.compute_envelope_internal(), v), "envelope of line {} = {}", sh(v), l.compute_envelope_internal());
    for (x, y) in SYM.iter().copied().chain([(1.0, 1.0), (0.0, 3.0)]) { is!(l.is_coordinate(&Coordinate::new_xy(x, y)), v.iter().any(|c| c.x == x && c.y == y), v, "{} {} is a coordinate", x, y); }
    is!(l.get_geometry_type(), "LineString".to_string(), v, "line type");
    x.t(18 + n as u64);
    Ok(())
}
fn ring_is(r: &LinearRing, v: &V, x: &mut Ctx) -> Res {
    is!(r.is_empty(), v.is_empty(), v, "ring emptiness");
    is!(r.get_num_points(), v.len(), v, "ring point count");
    isv!(r.get_coordinates(), v.clone(), v, "ring coordinates");
    isv!(r.get_coordinate_array_sequence().to_coordinate_array(), v.clone(), v, "ring sequence");
    ensure!(opt(r.get_coordinate(), v.first()), "first coordinate of ring {}", sh(v));
    for i in 0..v.len() { ensure!(eq(&r.get_coordinate_at_index(i), &v[i]), "coordinate {} of ring {}", i, sh(v)); }
    is!(r.is_closed(), v.is_empty() || closed(v), v, "ring closedness");
    is!(r.get_boundary_dimension(), Dimension::FALSE, v, "ring boundary dimension");
    ensure!(num(r.get_length(), len(v)), "length of ring {} = {} not {}", sh(v), r.get_length(), len(v));
    let mut c = r.clone();
    ensure!(env_ok(&r.compute_envelope_internal(), v) && env_ok(&c.get_envelope_internal(), v) && env_ok(&c.get_envelope_internal(), v), "envelope of ring {}", sh(v));
    ensure!(r.get_geometry_type() == "LinearRing" && r.get_type_code() == Geometry::TYPECODE_LINEARRING, "ring type");
    x.t(13 + v.len() as u64);
    Ok(())
}
fn poly_is(p: &Polygon, s: &V, h: &Vec<V>, x: &mut Ctx) -> Res {
    let all: V = std::iter::once(s).chain(h).flatten().copied().collect();
    is!(p.is_empty(), s.is_empty(), &all, "polygon emptiness");
    is!(p.get_num_points(), all.len(), &all, "polygon point count");
    isv!(p.get_coordinates(), all.clone(), &all, "polygon coordinates");
    ensure!(opt(p.get_coordinate(), s.first()), "first coordinate of polygon {}", sh(&all));
    is!(p.get_num_interior_ring(), h.len(), &all, "number of holes");
    ring_is(&p.get_exterior_ring(), s, x)?;
    for (i, v) in h.iter().enumerate() { ring_is(&p.get_interior_ring_n(i), v, x)?; }
    is!(p.get_dimension(), 2, &all, "polygon dimension");
    is!(p.get_boundary_dimension(), 1, &all, "polygon boundary dimension");
    let w = area(s) - h.iter().map(area).sum::<f64>();
    if std::iter::once(s).chain(h).all(|v| v.len() < 3 || closed(v)) { ensure!(num(p.get_area(), w), "area of shell {} and {} holes = {} not {}", sh(s), h.len(), p.get_area(), w); }
    let w = len(s) + h.iter().map(len).sum::<f64>();
    ensure!(num(p.get_length(), w), "length of shell {} and {} holes = {} not {}", sh(s), h.len(), p.get_length(), w);
    let mut c = p.clone();
    ensure!(env_ok(&c.compute_envelope_internal(), s) && env_ok(&c.get_envelope_internal(), s) && env_ok(&c.get_envelope_internal(), s), "envelope of polygon {}", sh(s));
    ensure!(p.get_geometry_type() == "Polygon", "polygon type");
    if h.len() > 0 { ensure!(!p.is_rectangle(), "polygon with holes is a rectangle: {}", sh(&all)); }
    x.t(14);
    Ok(())
}
fn parts_of(k: usize) -> Vec<usize> { [vec![], vec![0], vec![0, 1], vec![0, 2, 1, 0], vec![2, 1, 3, 0, 2]][k].clone() }

/// line, ring, polygon with n holes, collections with n elements, number q special
fn every_size(n: usize, q: usize, close: bool, parts: bool, x: &mut Ctx) -> Res {
    let mut v: V = (0..n).map(|j| lay((if j == q { 50.0 } else { (j % 6) as f64 }, if j == (q * 3 + 1) % n { -50.0 } else { (j % 5) as f64 }), j, (n + q) % 4)).collect();
    if close { v[n - 1] = v[0]; }
    x.out(if close { "closed" } else { "open" });
    x.note(|| format!("{} parts, number {} special", n, q));
    line_is(&GeometryFactory::create_line_string_coordinates(&v), &v, x)?;
    ring_is(&LinearRing::new_with_coordinates(&v), &v, x)?;
    // every vertex is found, wherever it stands, and no other place
    let far: V = (0..n).map(|j| Coordinate::new_xy(j as f64, (j * j % 17) as f64)).collect();
    let l = GeometryFactory::create_line_string_coordinates(&far);
    for j in [q, 0, n / 2, n - 1].into_iter().chain(if n < 300 { 0..n } else { n - 256..n }) {
        let (a, b) = (far[j].x, far[j].y);
        ensure!(l.is_coordinate(&far[j]) && !l.is_coordinate(&Coordinate::new_xy(a, b + 0.5)) && !l.is_coordinate(&Coordinate::new_xy(a + n as f64, b)), "vertex {} of a line of {}", j, n);
    }
    let sq = |j: usize| -> V { let o = (j * 2) as f64; if j == q && !close { vec![] } else { [(o, 0.0), (o, 1.0), (o + 1.0 + (j == q) as i32 as f64 * 0.5, 1.0), (o, 0.0)].iter().enumerate().map(|(k, p)| lay(*p, j * 4 + k, 1)).collect() } };
    let hs: Vec<V> = if parts { (0..n).map(sq).collect() } else { vec![sq(0)] };
    let shell: V = [(-1.0, -1.0), (300.0, -1.0), (300.0, 5.0), (-1.0, 5.0), (-1.0, -1.0)].iter().map(|p| lay(*p, 0, 1)).collect();
    let rs: Vec<LinearRing> = hs.iter().map(|v| LinearRing::new_with_coordinates(v)).collect();
    poly_is(&Polygon::new_with_linear_ring_vec(&LinearRing::new_with_coordinates(&shell), &rs), &shell, &hs, x)?;
    let mp = MultiPolygon::new_with_polygons(&rs.iter().map(Polygon::new_with_linear_ring).collect());
    let empty = hs.iter().all(|v| v.is_empty());
    ensure!(num(mp.get_area(), hs.iter().map(area).sum()) && mp.get_num_polygons() == hs.len() && mp.is_empty() == empty, "multipolygon of {}: area {} elements {} empty {}", n, mp.get_area(), mp.get_num_polygons(), mp.is_empty());
    for (j, h) in hs.iter().enumerate() { isv!(mp.get_polygon_at_index(j).get_coordinates(), h.clone(), h, "element {} of a multipolygon", j); }
    // lines: all closed but number q
    for (open, none) in [(q, n), (n, q), (n, n)] {
        let ls: Vec<V> = (0..n).map(|j| if j == none { vec![] } else if j == open { v[..1].iter().chain([&Coordinate::new_xy(7.0, 7.0)]).copied().collect() } else { vec![v[0], Coordinate::new_xy(7.0, 7.0), v[0]] }).collect();
        let m = MultiLineString::new_with_line_strings(&ls.iter().map(|v| GeometryFactory::create_line_string_coordinates(v)).collect());
        let e = ls.iter().all(|l| l.is_empty());
        let cl = !e && ls.iter().all(closed);
        ensure!(m.is_empty() == e && m.is_closed() == cl && m.get_boundary_dimension() == if cl { Dimension::FALSE } else { 0 }, "multilinestring of {} with line {} open and {} empty: empty {} closed {}", n, open, none, m.is_empty(), m.is_closed());
        // all empty but number q
        let m = MultiLineString::new_with_line_strings(&(0..n).map(|j| GeometryFactory::create_line_string_coordinates(&if j == q { v[..1].to_vec() } else { vec![] })).collect());
        ensure!(!m.is_empty(), "multilinestring of {} with only line {} not empty is empty", n, q);
    }
    let mp = MultiPolygon::new_with_polygons(&(0..n).map(|j| Polygon::new_with_linear_ring(&LinearRing::new_with_coordinates(&if j == q { shell.clone() } else { vec![] }))).collect());
    ensure!(!mp.is_empty() && num(mp.get_area(), 301.0 * 6.0), "multipolygon of {} with only element {} not empty", n, q);
    // points, one of them empty
    for none in [q, n] {
        let cs: Vec<Option<Coordinate>> = v.iter().enumerate().map(|(j, c)| if j == none { None } else { Some(*c) }).collect();
        let mut m = MultiPoint::new_with_points(&cs.iter().map(|c| c.map(|c| GeometryFactory::create_point_from_coordinate(&c)).unwrap_or(Point::default())).collect());
        let all: V = cs.iter().flatten().copied().collect();
        isv!(m.get_coordinates(), all.clone(), &all, "multipoint coordinates");
        ensure!(m.get_num_points() == all.len() && m.is_empty() == all.is_empty() && env_ok(&m.get_envelope_internal(), &all), "multipoint of {} with point {} empty", n, none);
        for (j, c) in cs.iter().enumerate() { ensure!(opt(m.get_coordinate(j), c.as_ref()), "coordinate {} of a multipoint of {} with point {} empty", j, n, none); }
        let m = MultiPoint::new_with_points(&(0..n).map(|j| if j == q && none == q { GeometryFactory::create_point_from_coordinate(&v[j]) } else { Point::default() }).collect());
        ensure!(m.is_empty() == (none != q), "multipoint of {} with {} point", n, if none == q { "one" } else { "no" });
    }
    x.t(20 + n as u64 * 2);
    Ok(())
}

fn main() {
    let mut k = Check::new("P17");
    k.assume("a polygon with an empty shell has no holes; the rectangle test is judged on simple rings and on rings without exactly five points");
    let n = k.q(7, 9);
    k.family("lines and rings", seqs(5, 0, n) * 4, |i, x| {
        let mut d = Dec(i);
        let s = seq(&mut d, 5, 0, n);
        let l = d.take(4);
        let v = pts(&s, l);
        x.note(|| sh(&v));
        x.out(if v.is_empty() { "empty" } else if closed(&v) { "closed" } else { "open" });
        let small = s.len() <= 4;
        line_is(&GeometryFactory::create_line_string_coordinates(&v), &v, x)?;
        ring_is(&GeometryFactory::create_linear_ring_with_coordinates(&v), &v, x)?;
        if small {
            for q in seqs_of(&v) {
                line_is(&GeometryFactory::create_line_string_coordinate_array_sequence(&q), &v, x)?;
                line_is(&LineString::new_from_coordinate_sequence(q.copy()), &v, x)?;
                let mut o = LineString::new_from_coordinate_sequence(CoordinateArraySequence::new_with_coordinates(&pts(&[1, 2, 3], 0)));
                let _ = o.compute_envelope_internal();
                o.init(q.copy());
                line_is(&o, &v, x)?;
                ring_is(&LinearRing::new_with_coordinate_array_sequence(&q), &v, x)?;
                ring_is(&GeometryFactory::create_linear_ring_with_coordinate_array_sequence(&q), &v, x)?;
                // polygons and multipoints straight from coordinates
                poly_is(&GeometryFactory::create_polygon_with_coordinate_array_sequence(&q), &v, &vec![], x)?;
                let m = GeometryFactory::create_multi_point_from_coordinate_array_sequence(&q);
                for (j, c) in v.iter().enumerate() { match m.get_point_at_index(j) { Some(p) => point_is(&p, Some(c), x)?, None => return Err(format!("point {} of {} is missing", j, sh(&v))) } }
                is!(m.get_num_points(), v.len(), &v, "multipoint point count");
                isv!(m.get_coordinates(), v.clone(), &v, "multipoint coordinates");
                ensure!(m.get_point_at_index(v.len()).is_none(), "a point beyond the last of {}", sh(&v));
            }
            ring_is(&LinearRing::new_with_coordinates(&v), &v, x)?;
            poly_is(&GeometryFactory::create_polygon_with_coordinates(&v), &v, &vec![], x)?;
            let m = GeometryFactory::create_multi_point_with_coordinates(&v);
            isv!(m.get_coordinates(), v.clone(), &v, "multipoint coordinates");
            x.t(6);
        }
        if s.is_empty() { line_is(&GeometryFactory::create_line_string(), &v, x)?; ring_is(&GeometryFactory::create_linear_ring(), &v, x)?; point_is(&GeometryFactory::create_point(), None, x)?; point_is(&Point::default(), None, x)?; }
        Ok(())
    });
    k.family("points", SYM.len() as u64 * 4, |i, x| {
        let mut d = Dec(i);
        let c = lay(*d.of(&SYM), 3, d.take(4));
        ensure!(Point::get_dimension() == 0 && Point::get_boundary_dimension() == Dimension::FALSE && Point::get_type_code() == Geometry::TYPECODE_POINT, "dimension and type of points");
        ensure!(LineString::get_type_code() == Geometry::TYPECODE_LINESTRING && Polygon::get_type_code() == Geometry::TYPECODE_POLYGON && MultiPoint::get_type_code() == Geometry::TYPECODE_MULTIPOINT && MultiLineString::get_type_code() == Geometry::TYPECODE_MULTILINESTRING, "type codes");
        point_is(&GeometryFactory::create_point_from_coordinate(&c), Some(&c), x)?;
        point_is(&Point::new_with_coordinate(&c, None), Some(&c), x)?;
        point_is(&Point::new_with_coordinate(&c, Some(PrecisionModel::new_with_scale(10.0))), Some(&c), x)?;
        for q in seqs_of(&vec![c]) { point_is(&Point::new_with_coordinate_seq(&q), Some(&c), x)?; point_is(&GeometryFactory::create_point_from_coordinate_array_sequence(&q), Some(&c), x)?; }
        Ok(())
    });
    let parts: [&[usize]; 7] = [&[], &[0], &[0, 1], &[0, 2, 1, 0], &[2, 3, 1, 0, 2], &[1, 1, 1, 1], &[3, 2, 0, 1, 4, 3]];
    let hn = k.q(5, 6);
    k.family("polygons with holes", 7 * seqs(7, 0, hn), |i, x| {
        let mut d = Dec(i);
        let s = pts(d.of(&parts), 1);
        let h: Vec<V> = seq(&mut d, 7, 0, hn).iter().map(|p| pts(parts[*p], 1)).collect();
        if s.is_empty() && !h.is_empty() { return x.skip(); }
        x.out(if h.is_empty() { "no hole" } else { "holes" });
        let sr = LinearRing::new_with_coordinates(&s);
        let hr: Vec<LinearRing> = h.iter().map(|v| LinearRing::new_with_coordinates(v)).collect();
        poly_is(&Polygon::new_with_linear_ring_vec(&sr, &hr), &s, &h, x)?;
        poly_is(&Polygon::new_with_linear_ring_vec_precision_model(&sr, &hr, PrecisionModel::new_with_scale(0.5)), &s, &h, x)?;
        poly_is(&GeometryFactory::create_polygon_with_linear_ring_vec(&sr, &hr), &s, &h, x)?;
        if h.is_empty() {
            poly_is(&Polygon::new_with_linear_ring(&sr), &s, &h, x)?;
            poly_is(&Polygon::new_with_linear_ring_precision_model(&sr, PrecisionModel::default()), &s, &h, x)?;
            poly_is(&GeometryFactory::create_polygon_with_linear_ring(&sr), &s, &h, x)?;
        }
        Ok(())
    });
    let cn = k.q(5, 7);
    k.family("collections", seqs(7, 0, cn) * 2, |i, x| {
        let mut d = Dec(i);
        let s = seq(&mut d, 7, 0, cn);
        let pm = d.bit();
        let vs: Vec<V> = s.iter().map(|p| pts(parts[*p], 3)).collect();
        let ls: Vec<LineString> = vs.iter().map(|v| GeometryFactory::create_line_string_coordinates(v)).collect();
        let m = if pm { MultiLineString::new_with_line_strings_precision_model(&ls, PrecisionModel::default()) } else { MultiLineString::new_with_line_strings(&ls) };
        let empty = vs.iter().all(|v| v.is_empty());
        x.out(if vs.is_empty() { "no elements" } else if empty { "empty elements" } else { "elements" });
        let cl = !empty && vs.iter().all(closed);
        ensure!(m.is_empty() == empty, "multilinestring {:?} empty {}", s, m.is_empty());
        ensure!(m.is_closed() == cl, "multilinestring {:?} closed {}", s, m.is_closed());
        ensure!(m.get_dimension() == 1 && m.get_boundary_dimension() == if cl { Dimension::FALSE } else { 0 } && (-1..4).all(|d| m.has_dimension(d) == (d == 1)) && m.get_geometry_type() == "MultiLineString", "dimension and type of multilinestring {:?}: boundary {}", s, m.get_boundary_dimension());
        let ps: Vec<Polygon> = vs.iter().map(|v| Polygon::new_with_linear_ring_vec(&LinearRing::new_with_coordinates(v), &if v.is_empty() { vec![] } else { vec![LinearRing::new_with_coordinates(&pts(parts[3], 3))] })).collect();
        let w: f64 = vs.iter().map(|v| if v.is_empty() { 0.0 } else { area(v) - area(&pts(parts[3], 0)) }).sum();
        let mut all = vec![if pm { MultiPolygon::new_with_polygons_precision_model(&ps, PrecisionModel::default()) } else { MultiPolygon::new_with_polygons(&ps) }];
        if !pm { all.push(GeometryFactory::create_multi_polygon(&ps)); }
        for m in all {
            ensure!(m.is_empty() == empty && m.get_num_polygons() == vs.len(), "multipolygon {:?}: empty {} elements {}", s, m.is_empty(), m.get_num_polygons());
            ensure!(num(m.get_area(), w), "area of multipolygon {:?} = {} not {}", s, m.get_area(), w);
            ensure!(m.get_dimension() == 2 && m.get_boundary_dimension() == 1 && (-1..4).all(|d| m.has_dimension(d) == (d == 2)) && m.get_geometry_type() == "MultiPolygon" && m.get_type_code() == Geometry::TYPECODE_MULTIPOLYGON, "dimension and type of multipolygon {:?}", s);
            for (j, v) in vs.iter().enumerate() { poly_is(&m.get_polygon_at_index(j), v, &if v.is_empty() { vec![] } else { vec![pts(parts[3], 3)] }, x)?; }
        }
        let fs: Vec<Option<Coordinate>> = vs.iter().map(|v| v.last().copied()).collect();
        let pp: Vec<Point> = fs.iter().map(|c| c.map(|c| GeometryFactory::create_point_from_coordinate(&c)).unwrap_or(Point::default())).collect();
        let mut all = vec![if pm { MultiPoint::new_with_points_precision_model(&pp, PrecisionModel::new_with_scale(7.0)) } else { MultiPoint::new_with_points(&pp) }];
        if !pm { all.push(GeometryFactory::create_multi_point_from_points(&pp)); }
        for mut m in all {
            let cs: V = fs.iter().flatten().copied().collect();
            ensure!(m.is_empty() == empty, "multipoint {:?} empty {}", s, m.is_empty());
            is!(m.get_num_points(), cs.len(), &cs, "multipoint point count");
            isv!(m.get_coordinates(), cs.clone(), &cs, "multipoint coordinates");
            for (j, c) in fs.iter().enumerate() {
                ensure!(opt(m.get_coordinate(j), c.as_ref()), "coordinate {} of multipoint {:?}", j, s);
                match m.get_point_at_index(j) { Some(p) => point_is(&p, c.as_ref(), x)?, None => return Err(format!("point {} of {:?} is missing", j, s)) }
            }
            for j in fs.len()..fs.len() + 2 { ensure!(m.get_point_at_index(j).is_none(), "point {} of multipoint {:?}", j, s); }
            ensure!(env_ok(&m.get_envelope_internal(), &cs) && env_ok(&m.get_envelope_internal(), &cs), "envelope of multipoint {:?}", s);
            ensure!(m.get_dimension() == 0 && m.get_boundary_dimension() == Dimension::FALSE && (-1..4).all(|d| m.has_dimension(d) == (d == 0)) && m.get_geometry_type() == "MultiPoint", "dimension and type of multipoint {:?}", s);
            ensure!(m.get_precision_model().map(|p| p.get_scale()) == if pm { Some(7.0) } else { None }, "precision model of multipoint {:?}", s);
        }
        x.t(30);
        Ok(())
    });
    // long inputs
    k.family("long lines and collections", 40, |i, x| {
        let n = [63usize, 64, 65, 100, 127, 128, 129, 255, 256, 257][i as usize % 10] + i as usize / 10;
        let s: Vec<usize> = (0..n).map(|j| (j * j + j / 3) % 5).collect();
        let v = pts(&s, 3);
        line_is(&GeometryFactory::create_line_string_coordinates(&v), &v, x)?;
        poly_is(&Polygon::new_with_linear_ring_vec(&LinearRing::new_with_coordinates(&v), &vec![LinearRing::new_with_coordinates(&v), LinearRing::new_with_coordinates(&v[..n / 2].to_vec())]), &v, &vec![v.clone(), v[..n / 2].to_vec()], x)?;
        isv!(GeometryFactory::create_multi_point_with_coordinates(&v).get_coordinates(), v.clone(), &v, "multipoint coordinates");
        Ok(())
    });
    // measures after every history of copies, reversals, normalizations and cached reads
    let hl = k.q(6, 8);
    let shells: Vec<(V, Vec<V>)> = vec![(pts(&parts_of(4), 1), vec![]), (pts(&[0, 2, 1, 0], 3), vec![pts(&[2, 1, 3, 2], 3), pts(&[0, 2, 1, 0], 3)]), (pts(&[3, 2, 1, 0, 3], 0), vec![vec![], pts(&[1, 0, 2, 1], 0)])];
    k.family("measures after a history", pow(5, hl) * 3, |i, x| {
        let mut d = Dec(i);
        let h: Vec<usize> = (0..hl).map(|_| d.take(5)).collect();
        let (s, hs) = d.of(&shells);
        let rings: Vec<LinearRing> = hs.iter().map(|v| LinearRing::new_with_coordinates(v)).collect();
        let mut p = Polygon::new_with_linear_ring_vec(&LinearRing::new_with_coordinates(s), &rings);
        let mut r = LinearRing::new_with_coordinates(s);
        let mut l = GeometryFactory::create_line_string_coordinates(s);
        let mut m = MultiPoint::new_with_points(&s.iter().map(GeometryFactory::create_point_from_coordinate).collect());
        let n: usize = s.len() + hs.iter().map(|h| h.len()).sum::<usize>();
        let (a, le) = (area(s) - hs.iter().map(area).sum::<f64>(), len(s) + hs.iter().map(len).sum::<f64>());
        for o in &h {
            match o {
                0 => { p = p.copy(); r = r.copy(); l = l.copy(); m = m.copy(); }
                1 => { p = p.reverse(); r = r.reverse(); l = l.reverse(); m = m.reverse(); }
                2 => { p.self_normalize(); Polygon::normalize(&mut r, true); l.normalize(); }
                3 => { Polygon::normalize(&mut r, false); let _ = p.compute_envelope_internal(); }
                _ => { let _ = (p.get_envelope_internal(), r.get_envelope_internal(), m.get_envelope_internal()); }
            }
            x.t(1);
        }
        x.out(if hs.is_empty() { "no hole" } else { "holes" });
        x.note(|| format!("{:?} on {}", h, sh(s)));
        // whatever the coordinates now are, everything else follows from them
        let sv = p.get_exterior_ring().get_coordinates();
        let hv: Vec<V> = (0..p.get_num_interior_ring()).map(|j| p.get_interior_ring_n(j).get_coordinates()).collect();
        ensure!(hv.len() == hs.len() && p.get_num_points() == n && num(p.get_area(), a) && num(p.get_length(), le), "{:?} changed the measures of {}", h, sh(s));
        poly_is(&p, &sv, &hv, x)?;
        ring_is(&r, &r.get_coordinates(), x)?;
        line_is(&l, &l.get_coordinates(), x)?;
        ensure!(m.get_num_points() == s.len() && env_ok(&m.get_envelope_internal(), s) && env_ok(&p.get_envelope_internal(), s) && env_ok(&r.get_envelope_internal(), s) && env_ok(&l.compute_envelope_internal(), s), "{:?} changed the envelope of {}", h, sh(s));
        Ok(())
    });
    // every size: line, ring, polygon with that many holes, collections with that many elements, the empty or special one anywhere
    let big = k.q(40usize, 130);
    k.family("every size", (big * big) as u64 * 2, |i, x| {
        let mut d = Dec(i);
        let (n, q) = (d.take(big) + 1, d.take(big));
        let close = d.bit();
        if q >= n || (close && n < 4) { return x.skip(); }
        every_size(n, q, close, true, x)
    });
    // more points, holes and elements than eight or sixteen bits count
    let hg = huge(70001);
    k.family("huge sizes", hg.len() as u64 * 2, |i, x| {
        let mut d = Dec(i);
        let (n, q) = *d.of(&hg);
        let close = d.bit();
        every_size(n, q, close, n < 5000 || (q + 2 == n && !close), x)
    });
    // measures at every scale
    k.family("every scale", 1601 * parts.len() as u64 * 2, |i, x| {
        let mut d = Dec(i);
        let p = *d.of(&parts);
        let neg = d.bit();
        let e = d.take(1601) as i32 - 800;
        let s = 2f64.powi(e) * if neg { -1.0 } else { 1.0 };
        let at = |p: &[usize]| -> V { p.iter().map(|i| Coordinate::new_xyz(SYM[*i].0 * s, SYM[*i].1 * s, 1.0)).collect() };
        let (v, u) = (at(p), pts(p, 1));
        x.out(if v.is_empty() { "empty" } else { "scaled" });
        x.note(|| sh(&v));
        let (wl, wa) = (len(&u) * s.abs(), area(&u));
        let l = GeometryFactory::create_line_string_coordinates(&v);
        let r = LinearRing::new_with_coordinates(&v);
        let q = Polygon::new_with_linear_ring(&r);
        for (nm, g) in [("line", l.get_length()), ("ring", r.get_length()), ("polygon", q.get_length())] { ensure!((g - wl).abs() <= wl * 1e-12, "length of {} {} = {:e} not {:e}", nm, sh(&v), g, wl); }
        if e.abs() <= 480 && (u.len() < 3 || closed(&u)) {
            let w = wa * s * s;
            ensure!((q.get_area() - w).abs() <= 1e-12 * (wa + 10.0) * s * s, "area of {} = {:e} not {:e}", sh(&v), q.get_area(), w);
            let m = MultiPolygon::new_with_polygons(&vec![q.copy(), q.copy()]);
            ensure!((m.get_area() - 2.0 * w).abs() <= 2e-12 * (wa + 10.0) * s * s, "area of two {} = {:e} not {:e}", sh(&v), m.get_area(), 2.0 * w);
        }
        ensure!(env_ok(&l.compute_envelope_internal(), &v) && env_ok(&q.clone().get_envelope_internal(), &v), "envelope of {}", sh(&v));
        ensure!(l.is_closed() == closed(&v) && r.is_closed() == (v.is_empty() || closed(&v)), "closedness of {}", sh(&v));
        // closed but for one last bit
        if v.len() > 1 { for t in [-1, 1] { for ax in 0..2 {
            let mut w = v.clone();
            let n = w.len();
            w[n - 1] = w[0];
            if ax == 0 { w[n - 1].x = ulp(w[0].x, t); } else { w[n - 1].y = ulp(w[0].y, t); }
            ensure!(!GeometryFactory::create_line_string_coordinates(&w).is_closed() && !LinearRing::new_with_coordinates(&w).is_closed(), "{} is closed", sh(&w));
            x.t(2);
        } } }
        x.t(10);
        Ok(())
    });
    // rectangles: all simple rings of 3 to 5 (thorough 6) vertices, monotone maps of the axes
    let rings = simple_rings(k.q(4, 5), 4, 4);
    let others: Vec<Vec<I>> = simple_rings(3, 3, 6).into_iter().filter(|r| r.len() != 5).collect();
    let axes: Vec<Vec<f64>> = vec![vec![0.0, 1.0, 2.0, 3.0, 4.0], vec![-3.0, -2.0, -0.0, 1.0, 7.0], vec![1.0, ulp(1.0, 1), ulp(1.0, 2), 2.0, 3.0], vec![1e8, 1e8 + 1.0, ulp(1e8 + 1.0, 1), 1e9, 1e10], vec![-1e-300, 0.0, 1e-300, 2e-300, 1.0]];
    k.family("rectangle test", rings.len() as u64 * 5 * 5, |i, x| {
        let mut d = Dec(i);
        let r = d.of(&rings);
        let (ax, ay) = (d.of(&axes), d.of(&axes));
        let l = (i % 4) as usize;
        let v: V = r.iter().map(|p| lay((ax[p.0 as usize], ay[p.1 as usize]), 0, l)).collect();
        let w = (0..4).all(|j| (r[j].0 == r[j + 1].0) != (r[j].1 == r[j + 1].1)) && { let mut xs: Vec<i64> = r.iter().map(|p| p.0).collect(); xs.sort(); xs.dedup(); let mut ys: Vec<i64> = r.iter().map(|p| p.1).collect(); ys.sort(); ys.dedup(); xs.len() == 2 && ys.len() == 2 };
        x.out(if w { "rectangle" } else { "other quadrilateral" });
        x.note(|| sh(&v));
        let mut p = GeometryFactory::create_polygon_with_coordinates(&v);
        is!(p.is_rectangle(), w, &v, "rectangle test");
        let _ = p.get_envelope_internal();
        is!(p.is_rectangle(), w, &v, "rectangle test after asking for the envelope");
        let ring = LinearRing::new_with_coordinates(&v);
        is!(Polygon::new_with_linear_ring_vec(&ring, &vec![ring.copy()]).is_rectangle(), false, &v, "rectangle test with a hole");
        x.t(3);
        Ok(())
    });
    k.family("rectangle test on rings without five points", others.len() as u64, |i, x| {
        let v: V = others[i as usize].iter().map(|p| Coordinate::new_xy(p.0 as f64, p.1 as f64)).collect();
        is!(GeometryFactory::create_polygon_with_coordinates(&v).is_rectangle(), false, &v, "rectangle test");
        x.t(1);
        Ok(())
    });
    k.finish()
}
