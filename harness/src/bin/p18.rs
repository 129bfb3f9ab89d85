// P18 Orderings are total orders consistent with equality
use geos_rs::verif::*;
use geosmc::{ensure, exact::*, mc::*, num::*};
use std::cmp::Ordering;
type V = Vec<Coordinate>;

/// numbers with NaN below everything and both zeros equal
fn cf(a: f64, b: f64) -> Ordering { match (a.is_nan(), b.is_nan()) { (true, true) => Ordering::Equal, (true, false) => Ordering::Less, (false, true) => Ordering::Greater, _ => a.partial_cmp(&b).unwrap() } }
fn lex<T>(a: &[T], b: &[T], f: impl Fn(&T, &T) -> Ordering) -> Ordering {
    for (p, q) in a.iter().zip(b) { let o = f(p, q); if o != Ordering::Equal { return o; } }
    a.len().cmp(&b.len())
}
fn c2(a: &Coordinate, b: &Coordinate) -> Ordering { cf(a.x, b.x).then(cf(a.y, b.y)) }
fn show(c: &Coordinate) -> String { format!("({:e},{:e},{},{})", c.x, c.y, c.z, c.m) }
fn sh(v: &V) -> String { format!("[{}]", v.iter().map(show).collect::<Vec<_>>().join(" ")) }
macro_rules! cmp_is { ($g:expr, $w:expr, $x:expr, $($a:tt)*) => { { let (g, w) = ($g, $w); $x.t(1);
    $x.out(match w { Ordering::Less => "less", Ordering::Equal => "equal", _ => "greater" });
    ensure!(g.signum() == w as i32, "comparing {} = {} not {:?}", format!($($a)*), g, w); } } }

const F: [f64; 12] = [f64::NEG_INFINITY, -1e308, -1.0, -5e-324, -0.0, 0.0, 5e-324, 1.0, 1.0000000000000002, 3.0, 1e308, f64::INFINITY];
/// XY, XYZ, XYM, XYZM coordinate of small values; the optional ordinates may be anything
fn lay(x: f64, y: f64, z: f64, l: usize) -> Coordinate { match l { 0 => Coordinate::new_xy(x, y), 1 => Coordinate::new_xyz(x, y, z), 2 => Coordinate::new_xym(x, y, z), _ => Coordinate::new_xyzm(x, y, -z, z) } }

fn main() {
    let mut k = Check::new("P18");
    k.assume("X and Y are not NaN in comparisons of coordinates (comparators of sequences order NaN below every number)");
    k.family("numbers", 13 * 13, |i, x| {
        let mut d = Dec(i);
        let all: Vec<f64> = F.iter().copied().chain([f64::NAN]).collect();
        let (a, b) = (*d.of(&all), *d.of(&all));
        cmp_is!(CoordinateSequenceComparator::compare_f64(a, b), cf(a, b), x, "{:e} and {:e}", a, b);
        Ok(())
    });
    k.family("coordinates", pow(12, 4) * 4, |i, x| {
        let mut d = Dec(i);
        let v = [*d.of(&F), *d.of(&F), *d.of(&F), *d.of(&F)];
        let l = d.take(4);
        let (a, b) = (lay(v[0], v[1], 4.0, l), lay(v[2], v[3], -4.0, (l + 1) % 4));
        let w = c2(&a, &b);
        cmp_is!(a.compare_to(&b), w, x, "{} and {}", show(&a), show(&b));
        ensure!(a.equals_2d(&b) == (w == Ordering::Equal), "{} equals {} = {}", show(&a), show(&b), a.equals_2d(&b));
        x.t(1);
        Ok(())
    });
    let g: [f64; 7] = [0.0, -0.0, 1.0, -1.0, 1.25, f64::NAN, 2.5];
    k.family("coordinate equality", pow(7, 6), |i, x| {
        let mut d = Dec(i);
        let v: Vec<f64> = (0..6).map(|_| *d.of(&g)).collect();
        let m = if i % 2 == 0 { f64::NAN } else { 3.0 };
        let (a, b) = (Coordinate::new_xyzm(v[0], v[1], v[2], m), Coordinate::new_xyz(v[3], v[4], v[5]));
        let e2 = v[0] == v[3] && v[1] == v[4];
        let ez = v[2] == v[5] || v[2].is_nan() && v[5].is_nan();
        x.out(if e2 && ez { "equal" } else if e2 { "equal in the plane" } else { "different" });
        ensure!(a.equals_2d(&b) == e2, "2D equality of {} and {} = {}", show(&a), show(&b), a.equals_2d(&b));
        ensure!(a.equals_3d(&b) == (e2 && ez), "3D equality of {} and {} = {}", show(&a), show(&b), a.equals_3d(&b));
        x.t(2);
        for t in [0.0, 0.25, 1.0, 1.25, 2.4] {
            let n = |p: f64, q: f64| (p - q).abs() <= t;
            ensure!(a.equals_2d_with_tolerance(&b, t) == (n(v[0], v[3]) && n(v[1], v[4])), "2D equality of {} and {} within {} = {}", show(&a), show(&b), t, a.equals_2d_with_tolerance(&b, t));
            ensure!(a.equal_in_z(&b, t) == n(v[2], v[5]) && a.equal_in_coordinate_z(&b, t) == n(v[2], v[5]), "Z equality of {} and {} within {} = {}", show(&a), show(&b), t, a.equal_in_z(&b, t));
            ensure!(NumberUtil::equals_with_tolerance(v[0], v[3], t) == n(v[0], v[3]), "{} equals {} within {}", v[0], v[3], t);
            x.t(4);
        }
        Ok(())
    });
    // coordinate lists: every pair of short lists, in lines, rings, segments and arrays
    let n = k.q(4, 5);
    let sy: [(f64, f64); 4] = [(0.0, 1.0), (-0.0, 2.0), (1.0, -1.0), (1.0, 0.0)];
    let mk = move |s: &Vec<usize>, l: usize| -> V { s.iter().enumerate().map(|(k, p)| lay(sy[*p].0, sy[*p].1, (k * 3 % 5) as f64, l)).collect() };
    let ns = seqs(4, 0, n);
    // within a tolerance is within that distance; no tolerance is equality
    let tols = [0.0, 0.5, 1.0, 2.0, 5.0, 5.5, 10.0, 13.0];
    k.family("coordinates within a distance", 41 * 41 * tols.len() as u64 * 5 * 2 * 3, |i, x| {
        let mut d = Dec(i);
        let (dx, dy) = (d.take(41) as i64 - 20, d.take(41) as i64 - 20);
        let t = *d.of(&tols);
        let s = 2f64.powi(*d.of(&[0, -40, 30, 200, -200]));
        let (ox, oy) = if d.bit() { (0, 0) } else { (-1000, 77) };
        let a = Coordinate::new_xyz(ox as f64 * s, oy as f64 * s, 5.0);
        let (bx, by) = ((ox + dx) as f64 * s, (oy + dy) as f64 * s);
        let b = match d.take(3) { 0 => Coordinate::new_xym(bx, by, 9.0), 1 => Coordinate::new_xyz(bx, by, 9.0), _ => Coordinate::new_xyzm(bx, by, 5.0, -1.0) };
        let w = (dx * dx + dy * dy) as f64 <= t * t;
        x.t(2);
        x.out(if w { "within" } else { "apart" });
        x.note(|| format!("({}, {}) within {} x {:e}", dx, dy, t, s));
        ensure!(Coordinates::equal(&a, &b, t * s) == w && Coordinates::equal(&b, &a, t * s) == w, "{} and {} within {:e}: {}, {}", show(&a), show(&b), t * s, Coordinates::equal(&a, &b, t * s), Coordinates::equal(&b, &a, t * s));
        Ok(())
    });
    k.family("coordinate lists", ns * ns, |i, x| {
        let mut d = Dec(i);
        let (a, b) = (seq(&mut d, 4, 0, n), seq(&mut d, 4, 0, n));
        let (a, b) = (mk(&a, 1), mk(&b, 0));
        let w = lex(&a, &b, c2);
        cmp_is!(CoordinateArrays::compare(&a, &b), w, x, "arrays {} and {}", sh(&a), sh(&b));
        let (la, lb) = (GeometryFactory::create_line_string_coordinates(&a), GeometryFactory::create_line_string_coordinates(&b));
        cmp_is!(la.compare_to(&lb), w, x, "lines {} and {}", sh(&a), sh(&b));
        let (ra, rb) = (LinearRing::new_with_coordinates(&a), LinearRing::new_with_coordinates(&b));
        cmp_is!(ra.compare_to_same_class(&rb), w, x, "rings {} and {}", sh(&a), sh(&b));
        ensure!(la.equals_exact(&lb, 0.0) == (w == Ordering::Equal) && CoordinateArrays::equals(&a, &b) == (w == Ordering::Equal), "equality of {} and {}", sh(&a), sh(&b));
        cmp_is!(Polygon::new_with_linear_ring(&ra).compare_to(&Polygon::new_with_linear_ring(&rb)), w, x, "shells {} and {}", sh(&a), sh(&b));
        if a.len() == 2 && b.len() == 2 {
            let (s, t) = (LineSegment::new_from_coordinates(&a[0], &a[1]), LineSegment::new_from_coordinates(&b[0], &b[1]));
            cmp_is!(s.compare_to(&t), w, x, "segments {} and {}", sh(&a), sh(&b));
            ensure!(s.equals(&t) == (w == Ordering::Equal), "equality of segments {} and {}", sh(&a), sh(&b));
        }
        Ok(())
    });
    // sequences of all layouts, with every dimension limit
    let zs = [f64::NAN, 0.0, -0.0, 1.0];
    let objs: Vec<(V, usize)> = {
        let mut o = vec![];
        for l in 0..4usize { for len in 0..=k.q(3, 3) {
            let per = if l == 0 { 2 } else { 8 };
            for c in 0..pow(per, len) {
                let mut d = Dec(c);
                let v: V = (0..len).map(|_| { let p = d.take(per); let (x, y) = (1.0, (p % 2) as f64); let z = zs[p / 2 % 4]; match l { 0 => Coordinate::new_xy(x, y), 1 => Coordinate::new_xyz(x, y, z), 2 => Coordinate::new_xym(x, y, z), _ => Coordinate::new_xyzm(x, y, 1.0, z) } }).collect();
                o.push((v, l));
            }
        } }
        o
    };
    let dm = [(2, 0), (3, 0), (3, 1), (4, 1)];
    let no = objs.len();
    k.family("sequences by dimension limit", (no * no) as u64, |i, x| {
        let mut d = Dec(i);
        let ((a, l), (b, m)) = (d.of(&objs), d.of(&objs));
        // Z of an XYZ sequence has no counterpart in an XYM sequence
        let (da, db) = (dm[*l].0, dm[*m].0);
        let sq = |v: &V, l: usize| CoordinateArraySequence::new_with_coordinates_dimension_measures(v.clone(), dm[l].0, dm[l].1);
        let (sa, sb) = (sq(a, *l), sq(b, *m));
        let row = |c: &Coordinate, l: usize| -> Vec<f64> { match l { 0 => vec![c.x, c.y], 1 => vec![c.x, c.y, c.z], 2 => vec![c.x, c.y, c.m], _ => vec![c.x, c.y, c.z, c.m] } };
        let (ra, rb): (Vec<Vec<f64>>, Vec<Vec<f64>>) = (a.iter().map(|c| row(c, *l)).collect(), b.iter().map(|c| row(c, *m)).collect());
        for lim in [0, 1, 2, 3, 4, 5, i32::MAX] {
            let comp = if lim == i32::MAX { CoordinateSequenceComparator::default() } else { CoordinateSequenceComparator::new_with_dimension_limit(lim) };
            let n = da.min(db).min(lim) as usize;
            let w = da.min(lim).cmp(&db.min(lim)).then_with(|| lex(&ra, &rb, |p, q| lex(&p[..n], &q[..n], |s, t| cf(*s, *t))));
            cmp_is!(comp.compare_coordinate_array_sequence(&sa, &sb), w, x, "sequences {} (layout {}) and {} (layout {}) up to dimension {}", sh(a), l, sh(b), m, lim);
            let (ga, gb) = (LineString::new_from_coordinate_sequence(sa.copy()), LineString::new_from_coordinate_sequence(sb.copy()));
            cmp_is!(ga.compare_to_with_comparator(&gb, &comp), w, x, "lines {} and {} up to dimension {}", sh(a), sh(b), lim);
            let (qa, qb) = (LinearRing::new_with_coordinate_array_sequence(&sa), LinearRing::new_with_coordinate_array_sequence(&sb));
            cmp_is!(qa.compare_to_same_class_with_comparator(&qb, &comp), w, x, "rings {} and {} up to dimension {}", sh(a), sh(b), lim);
            cmp_is!(Polygon::new_with_linear_ring(&qa).compare_to_with_comparator(&Polygon::new_with_linear_ring(&qb), &comp), w, x, "shells {} and {} up to dimension {}", sh(a), sh(b), lim);
            for j in 0..a.len().min(b.len()) { cmp_is!(CoordinateSequenceComparator::compare_coordinate(&sa, &sb, j as i32, n as i32), lex(&ra[j][..n], &rb[j][..n], |s, t| cf(*s, *t)), x, "coordinates {} of {} and {} up to dimension {}", j, sh(a), sh(b), n); }
            if a.len() <= 1 && b.len() <= 1 { cmp_is!(Point::new_with_coordinate_seq(&sa).compare_to_same_class(&Point::new_with_coordinate_seq(&sb), &comp), w, x, "points {} and {} up to dimension {}", sh(a), sh(b), lim); }
        }
        Ok(())
    });
    // polygons: shell first, then holes, then their number
    let shells: [V; 3] = [vec![], vec![Coordinate::new_xy(0.0, 0.0), Coordinate::new_xy(9.0, 0.0), Coordinate::new_xy(9.0, 9.0), Coordinate::new_xy(0.0, 0.0)], vec![Coordinate::new_xy(0.0, 0.0), Coordinate::new_xy(9.0, 1.0), Coordinate::new_xy(0.0, 0.0)]];
    let holes: [V; 4] = [vec![], vec![Coordinate::new_xy(1.0, 1.0)], vec![Coordinate::new_xy(1.0, 1.0), Coordinate::new_xy(2.0, 1.0)], vec![Coordinate::new_xy(0.0, 5.0), Coordinate::new_xy(2.0, 1.0)]];
    let hm = k.q(4, 5);
    let np = 3 * seqs(4, 0, hm);
    k.family("polygons", np * np, |i, x| {
        let mut d = Dec(i);
        let one = |d: &mut Dec| { let s = d.take(3); (s, seq(d, 4, 0, hm)) };
        let (a, b) = (one(&mut d), one(&mut d));
        let w = lex(&shells[a.0], &shells[b.0], c2).then_with(|| lex(&a.1, &b.1, |p, q| lex(&holes[*p], &holes[*q], c2)));
        let p = |a: &(usize, Vec<usize>)| Polygon::new_with_linear_ring_vec(&LinearRing::new_with_coordinates(&shells[a.0]), &a.1.iter().map(|h| LinearRing::new_with_coordinates(&holes[*h])).collect());
        let (pa, pb) = (p(&a), p(&b));
        cmp_is!(pa.compare_to(&pb), w, x, "polygons {:?} and {:?}", a, b);
        ensure!(pa.equals_exact(&pb, 0.0) == (w == Ordering::Equal), "equality of polygons {:?} and {:?}", a, b);
        cmp_is!(pa.compare_to_with_comparator(&pb, &CoordinateSequenceComparator::new_with_dimension_limit(2)), w, x, "polygons {:?} and {:?} by coordinates", a, b);
        Ok(())
    });
    // envelopes: null first, then lower left, then upper right corner
    let ev = [0.0, -0.0, 1.0, -2.0, 1.0000000000000002];
    let mut envs: Vec<Option<[f64; 4]>> = vec![None];
    for i in 0..625 { let mut d = Dec(i); let (a, b, c, e) = (*d.of(&ev), *d.of(&ev), *d.of(&ev), *d.of(&ev)); if a <= b && c <= e { envs.push(Some([a, b, c, e])); } }
    let ne = envs.len();
    k.family("envelopes", (ne * ne) as u64, |i, x| {
        let mut d = Dec(i);
        let (a, b) = (d.of(&envs), d.of(&envs));
        let mk = |a: &Option<[f64; 4]>| match a { None => Envelope::default(), Some(v) => Envelope::new_xy(v[0], v[1], v[2], v[3]) };
        let key = |a: &Option<[f64; 4]>| a.map(|v| vec![v[0], v[2], v[1], v[3]]).unwrap_or_default();
        let w = lex(&key(a), &key(b), |p, q| cf(*p, *q));
        cmp_is!(mk(a).compare_to_envelope(&mk(b)), w, x, "envelopes {:?} and {:?}", a, b);
        ensure!(mk(a).equals(&mk(b)) == (w == Ordering::Equal), "equality of envelopes {:?} and {:?}", a, b);
        Ok(())
    });
    // segments, including those that differ only in the last bit or in a zero's sign
    let pv: [(f64, f64); 6] = [(0.0, 0.0), (0.0, -0.0), (0.0, 1.0), (1.0, 0.0), (1.0000000000000002, 0.0), (-1.0, 5.0)];
    k.family("segments", pow(6, 4), |i, x| {
        let mut d = Dec(i);
        let p: Vec<Coordinate> = (0..4).map(|j| { let p = d.of(&pv); Coordinate::new_xyz(p.0, p.1, j as f64) }).collect();
        let (s, t) = (LineSegment::new_from_coordinates(&p[0], &p[1]), LineSegment::new_from_coordinates(&p[2], &p[3]));
        let w = c2(&p[0], &p[2]).then(c2(&p[1], &p[3]));
        cmp_is!(s.compare_to(&t), w, x, "segments {}", sh(&p));
        ensure!(s.equals(&t) == (w == Ordering::Equal), "equality of segments {}", sh(&p));
        let topo = w == Ordering::Equal || c2(&p[0], &p[3]) == Ordering::Equal && c2(&p[1], &p[2]) == Ordering::Equal;
        ensure!(s.equals_topo(&t) == topo, "topological equality of segments {}", sh(&p));
        Ok(())
    });
    // double-doubles
    let mut dds: Vec<(f64, f64)> = vec![];
    for h in [0.0, 1.0, 1.0000000000000002, 0.9999999999999999, 1e-20, 3e40] { for l in [0.0, 0.5, -0.5, 0.25, 1e-9, -1e-9, -2e-9] { for s in [1.0, -1.0] {
        let lo = l * (ulp(h, 1) - h) * 0.999; if h + lo == h && !(h == 0.0 && lo != 0.0) { dds.push((s * h, s * lo)); }
    } } }
    let nd = dds.len();
    k.family("double-doubles", (nd * nd) as u64, |i, x| {
        let mut d = Dec(i);
        let (a, b) = (*d.of(&dds), *d.of(&dds));
        let e = |w: (f64, f64)| Dy::new(w.0).add(&Dy::new(w.1));
        let w = e(a).cmp(&e(b));
        let (p, q) = (DD::new_hi_lo(a.0, a.1), DD::new_hi_lo(b.0, b.1));
        cmp_is!(p.compare_to(&q), w, x, "{:?} and {:?}", a, b);
        ensure!(p.equals(&q) == (w == Ordering::Equal) && p.gt(&q) == (w == Ordering::Greater) && p.ge(&q) == (w != Ordering::Less) && p.lt(&q) == (w == Ordering::Less) && p.le(&q) == (w != Ordering::Greater), "relations of {:?} and {:?}", a, b);
        x.t(5);
        Ok(())
    });
    // neighbouring doubles at every magnitude, in every position of every key
    let ex: Vec<i32> = (-1074..=1023).step_by(k.q(3, 1)).collect();
    let mant = [1.0, 1.5, 1.9999999999999998];
    k.family("neighbouring doubles at every magnitude", (ex.len() * mant.len() * 2 * 7) as u64, |i, x| {
        let mut d = Dec(i);
        let (e, m, neg) = (*d.of(&ex), *d.of(&mant), d.bit());
        let h = e / 2;
        let v = m * 2f64.powi(h) * 2f64.powi(e - h) * if neg { -1.0 } else { 1.0 };
        let w = match d.take(7) { u @ 0..=4 => ulp(v, u as i64 - 2), 5 => -v, _ => v * 0.5 };
        if v.is_nan() || w.is_nan() { return x.skip(); }
        let o = cf(v, w);
        cmp_is!(CoordinateSequenceComparator::compare_f64(v, w), o, x, "{:e} and {:e}", v, w);
        let p = |a: f64, b: f64| Coordinate::new_xy(a, b);
        cmp_is!(p(v, 5.0).compare_to(&p(w, 5.0)), o, x, "x {:e} and {:e}", v, w);
        cmp_is!(p(5.0, v).compare_to(&p(5.0, w)), o, x, "y {:e} and {:e}", v, w);
        cmp_is!(p(v, w).compare_to(&p(w, v)), o, x, "({:e},{:e}) and swapped", v, w);
        ensure!(p(v, 1.0).equals_2d(&p(w, 1.0)) == (v == w) && p(1.0, v).equals_2d(&p(1.0, w)) == (v == w), "2D equality of {:e} and {:e}", v, w);
        for pos in 0..3 {
            let t = |v: f64| { let mut c = [1.0, 2.0, 3.0]; c[pos] = v; Coordinate::new_xyz(c[0], c[1], c[2]) };
            ensure!(t(v).equals_3d(&t(w)) == (v == w), "3D equality with {:e} and {:e} in place {}", v, w, pos);
        }
        // a tolerance is met up to its last bit
        if e.abs() < 500 && v != 0.0 {
            let (t, zero) = (w.abs(), p(0.0, 0.0));
            for q in [p(v, 0.0), p(0.0, v)] {
                ensure!(Coordinates::equal(&zero, &q, t) == (v.abs() <= t) && Coordinates::equal(&q, &zero, t) == (v.abs() <= t), "points {:e} apart within {:e}", v.abs(), t);
                ensure!(Geometry::equal(&zero, &q, t) == (v.abs() <= t) && Geometry::equal(&q, &zero, t) == (v.abs() <= t), "points {:e} apart within {:e} (geometries)", v.abs(), t);
                ensure!(zero.equals_2d_with_tolerance(&q, t) == (v.abs() <= t), "ordinates {:e} apart within {:e}", v.abs(), t);
            }
            ensure!(Coordinate::new_xyz(0.0, 0.0, 0.0).equal_in_z(&Coordinate::new_xyz(0.0, 0.0, v), t) == (v.abs() <= t), "Z {:e} apart within {:e}", v.abs(), t);
            x.t(4);
        }
        for pos in 0..4 {
            let sg = |v: f64| { let mut c = [7.0, 7.0, -7.0, -7.0]; c[pos] = v; LineSegment::new_from_coordinates(&p(c[0], c[1]), &p(c[2], c[3])) };
            cmp_is!(sg(v).compare_to(&sg(w)), o, x, "segments with {:e} and {:e} in place {}", v, w, pos);
            // the other bound stays out of the way
            let (lo, hi) = (f64::MIN, f64::MAX);
            let ev = |v: f64| match pos { 0 => Envelope::new_xy(v, hi, 0.0, 1.0), 1 => Envelope::new_xy(lo, v, 0.0, 1.0), 2 => Envelope::new_xy(0.0, 1.0, v, hi), _ => Envelope::new_xy(0.0, 1.0, lo, v) };
            cmp_is!(ev(v).compare_to_envelope(&ev(w)), o, x, "envelopes with {:e} and {:e} in place {}", v, w, pos);
            ensure!(ev(v).equals(&ev(w)) == (v == w), "equality of envelopes with {:e} and {:e} in place {}", v, w, pos);
        }
        for l in 2..=4usize { for pos in 0..l {
            let sq = |v: f64| { let mut c = [1.0, 2.0, 3.0, 4.0]; c[pos] = v; CoordinateArraySequence::new_with_coordinates_dimension_measures(vec![Coordinate::new_xyzm(c[0], c[1], c[2], c[3])], l as i32, (l == 4) as i32) };
            cmp_is!(CoordinateSequenceComparator::default().compare_coordinate_array_sequence(&sq(v), &sq(w)), o, x, "sequences of dimension {} with {:e} and {:e} in place {}", l, v, w, pos);
        } }
        let t = |v: f64| DD::new_hi_lo(v, 0.0);
        cmp_is!(t(v).compare_to(&t(w)), o, x, "double-doubles {:e} and {:e}", v, w);
        if e > -900 && e < 900 {
            let t = |u: i64| DD::new_hi_lo(v, ulp(v * 2f64.powi(-60), u));
            cmp_is!(t(0).compare_to(&t(1)), cf(0.0, 1.0), x, "low words after {:e}", v);
            cmp_is!(t(1).compare_to(&t(0)), cf(1.0, 0.0), x, "low words after {:e}", v);
        }
        Ok(())
    });
    // long lists with one difference at every position
    let nl = k.q(100usize, 260);
    let long = |len: usize, at: usize, kind: usize, rev: bool, x: &mut Ctx| -> Res {
        if at > len { return x.skip(); }
        let a: V = (0..len).map(|j| Coordinate::new_xyz(((j * j) % 11) as f64, ((j * 7) % 5) as f64, j as f64)).collect();
        let mut b = a.clone();
        if at < len { match kind { 0 => b[at].x = ulp(b[at].x, 1), 1 => b[at].y -= 1.0, 2 => { b[at].x += 1.0; for c in &mut b[at + 1..] { c.x = -50.0; } } 3 => b[at].z = -1.0, _ => b.truncate(at) } }
        let (a, b) = if rev { (b, a) } else { (a, b) };
        let w = lex(&a, &b, c2);
        x.note(|| format!("{} points, difference {} at {}: {:?}", len, kind, at, w));
        cmp_is!(CoordinateArrays::compare(&a, &b), w, x, "arrays {} and {}", sh(&a), sh(&b));
        ensure!(CoordinateArrays::equals(&a, &b) == (w == Ordering::Equal), "equality of arrays {} and {}", sh(&a), sh(&b));
        let (la, lb) = (GeometryFactory::create_line_string_coordinates(&a), GeometryFactory::create_line_string_coordinates(&b));
        cmp_is!(la.compare_to(&lb), w, x, "lines {} and {}", sh(&a), sh(&b));
        ensure!(la.equals_exact(&lb, 0.0) == (w == Ordering::Equal), "equality of lines {} and {}", sh(&a), sh(&b));
        let (ra, rb) = (LinearRing::new_with_coordinates(&a), LinearRing::new_with_coordinates(&b));
        cmp_is!(ra.compare_to_same_class(&rb), w, x, "rings {} and {}", sh(&a), sh(&b));
        cmp_is!(Polygon::new_with_linear_ring(&ra).compare_to(&Polygon::new_with_linear_ring(&rb)), w, x, "shells {} and {}", sh(&a), sh(&b));
        let key = |v: &V, n: usize| -> Vec<Vec<f64>> { v.iter().map(|c| [c.x, c.y, c.z][..n].to_vec()).collect() };
        for lim in 2..=3usize {
            let w = lex(&key(&a, lim), &key(&b, lim), |p, q| lex(p, q, |s, t| cf(*s, *t)));
            let sq = |v: &V| CoordinateArraySequence::new_with_coordinates_dimension_measures(v.clone(), 3, 0);
            let c = CoordinateSequenceComparator::new_with_dimension_limit(lim as i32);
            cmp_is!(c.compare_coordinate_array_sequence(&sq(&a), &sq(&b)), w, x, "sequences {} and {} up to dimension {}", sh(&a), sh(&b), lim);
        }
        // as many holes, the last ones alike
        if len <= 24 {
            let shell = LinearRing::new_with_coordinates(&vec![Coordinate::new_xy(0.0, 0.0), Coordinate::new_xy(90.0, 0.0), Coordinate::new_xy(0.0, 90.0), Coordinate::new_xy(0.0, 0.0)]);
            let p = |v: &V| Polygon::new_with_linear_ring_vec(&shell, &v.iter().map(|c| LinearRing::new_with_coordinates(&vec![*c, Coordinate::new_xy(80.0, 80.0)])).collect());
            cmp_is!(p(&a).compare_to(&p(&b)), w, x, "polygons with holes at {} and {}", sh(&a), sh(&b));
            ensure!(p(&a).equals_exact(&p(&b), 0.0) == (w == Ordering::Equal), "equality of polygons with holes at {} and {}", sh(&a), sh(&b));
        }
        Ok(())
    };
    k.family("long lists with one difference", (nl * (nl + 1) * 5 * 2) as u64, |i, x| {
        let mut d = Dec(i);
        long(1 + d.take(nl), d.take(nl + 1), d.take(5), d.bit(), x)
    });
    let mut very: Vec<(usize, usize)> = vec![];
    for l in [127usize, 128, 129, 255, 256, 257, 300, 301, 511, 513, 1000, 1025, 4097, 32769, 65537] {
        let mut at: Vec<usize> = vec![0, 1, 63, 64, 99, 100, 127, 128, 149, 150, 199, 200, 254, 255, 256, 257, 299, 300, 301, 511, 512, 999, 1000, 1023, 1024, 4095, 4096, 65535, 65536, l / 2, l - 2, l - 1, l];
        if l > 5000 { at = vec![1, 257, 32767, 32768, 65535, 65536, l - 1, l]; }
        at.sort(); at.dedup();
        very.extend(at.into_iter().filter(|a| *a <= l).map(|a| (l, a)));
    }
    let nv = very.len();
    k.family("very long lists with one difference", (nv * 10) as u64, |i, x| {
        let mut d = Dec(i);
        let (len, at) = *d.of(&very);
        long(len, at, d.take(5), d.bit(), x)
    });
    // precision models: by significant digits
    let pms: Vec<(PrecisionModel, i32)> = [1.0, 10.0, 100.0, 1000.0, 5.0, 0.5, 1e5, 1e6, 20.0, 1e9, 1e16, 1e14].iter().map(|s| { let p = PrecisionModel::new_with_scale(*s); (p, p.get_maximum_significant_digits()) })
        .chain([(PrecisionModel::default(), 16), (PrecisionModel::new_with_type(PrecisionModelType::FloatingSingle), 6)]).collect();
    let npm = pms.len();
    k.family("precision models", (npm * npm) as u64, |i, x| {
        let mut d = Dec(i);
        let (a, b) = (d.of(&pms), d.of(&pms));
        cmp_is!(a.0.compare_to(&b.0), a.1.cmp(&b.1), x, "precision models of {} and {} digits", a.1, b.1);
        Ok(())
    });
    k.finish()
}
