// P16 Geometry copies, reversals and normal forms preserve the geometry
use geos_rs::verif::*;
use geosmc::{ensure, geo::*, mc::*, num::{same, ulp}};
type V = Vec<Coordinate>;
fn eq(a: &Coordinate, b: &Coordinate) -> bool { same(a.x, b.x) && same(a.y, b.y) && same(a.z, b.z) && same(a.m, b.m) }
fn eqv(a: &V, b: &V) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(p, q)| eq(p, q)) }
fn sh(v: &V) -> String { format!("[{}]", v.iter().map(|c| format!("({},{},{},{})", c.x, c.y, c.z, c.m)).collect::<Vec<_>>().join(" ")) }
fn s2(a: &Coordinate, b: &Coordinate) -> bool { a.x == b.x && a.y == b.y }
fn lt(a: &Coordinate, b: &Coordinate) -> bool { (a.x, a.y) < (b.x, b.y) }
fn rev(v: &V) -> V { let mut v = v.clone(); v.reverse(); v }
macro_rules! isv { ($g:expr, $w:expr, $v:expr, $($a:tt)*) => { { let (g, w) = ($g, $w); ensure!(eqv(&g, &w), "{} of {} = {} not {}", format!($($a)*), sh($v), sh(&g), sh(&w)); } } }
const SYM: [(f64, f64); 4] = [(0.0, 0.0), (1.0, 0.0), (1.0, 2.0), (-1.0, 2.0)];
/// coordinates with the ordinates of a layout: 0 XY, 1 XYZ, 2 XYM, 3 XYZM
fn lay(p: (f64, f64), k: usize, l: usize) -> Coordinate {
    let (z, m) = (10.0 + k as f64, -5.0 - k as f64);
    match l { 0 => Coordinate::new_xy(p.0, p.1), 1 => Coordinate::new_xyz(p.0, p.1, z), 2 => Coordinate::new_xym(p.0, p.1, m), _ => Coordinate::new_xyzm(p.0, p.1, z, m) }
}
fn pts(s: &[usize], l: usize) -> V { s.iter().enumerate().map(|(k, i)| lay(SYM[*i], k, l)).collect() }

fn line_norm(v: &V) -> V {
    let n = v.len();
    for i in 0..n / 2 { if !s2(&v[i], &v[n - 1 - i]) { return if lt(&v[n - 1 - i], &v[i]) { rev(v) } else { v.clone() }; } }
    v.clone()
}
fn env_is(e: &Envelope, v: &V) -> bool {
    if v.is_empty() { return e.is_null(); }
    let f = |g: fn(&Coordinate) -> f64, h: fn(f64, f64) -> f64| v.iter().map(g).reduce(h).unwrap();
    !e.is_null() && e.get_min_x() == f(|c| c.x, f64::min) && e.get_max_x() == f(|c| c.x, f64::max) && e.get_min_y() == f(|c| c.y, f64::min) && e.get_max_y() == f(|c| c.y, f64::max)
}
fn line(v: &V, how: usize) -> LineString {
    match how { 0 => GeometryFactory::create_line_string_coordinates(v), _ => LineString::new_from_coordinate_sequence(CoordinateArraySequence::new_with_coordinates(v)) }
}
fn lines(v: &V, x: &mut Ctx) -> Res {
    for how in 0..2 {
        let l = line(v, how);
        isv!(l.get_coordinates(), v.clone(), v, "coordinates");
        let mut c = l.copy();
        let r = l.reverse();
        isv!(c.get_coordinates(), v.clone(), v, "copy");
        isv!(r.get_coordinates(), rev(v), v, "reverse");
        isv!(r.reverse().get_coordinates(), v.clone(), v, "double reverse");
        isv!(l.reverse_internal().get_coordinates(), rev(v), v, "internal reverse");
        isv!(l.get_coordinates(), v.clone(), v, "line after copying and reversing it");
        ensure!(l.equals_exact(&c, 0.0) && c.equals_exact(&l, 0.0) && l.equals_exact(&c, 0.1), "{} does not equal its copy", sh(v));
        let want = line_norm(v);
        c.normalize();
        isv!(c.get_coordinates(), want.clone(), v, "normal form");
        isv!(l.get_coordinates(), v.clone(), v, "original after normalizing a copy");
        ensure!(env_is(&c.compute_envelope_internal(), v), "envelope of the normal form of {}", sh(v));
        let mut c2 = c.clone();
        c2.normalize();
        isv!(c2.get_coordinates(), want.clone(), v, "twice normalized");
        let mut r2 = r.copy();
        r2.normalize();
        let (a, b) = (c.get_coordinates(), r2.get_coordinates());
        ensure!(a.len() == b.len() && a.iter().zip(&b).all(|(p, q)| s2(p, q)) && c.equals_exact(&r2, 0.0), "{} and its reverse normalize to {} and {}", sh(v), sh(&a), sh(&b));
        // replacing the coordinates of a copy leaves the original alone
        let mut c3 = l.copy();
        c3.init(CoordinateArraySequence::new_with_coordinates(&vec![Coordinate::new_xy(9.0, 9.0)]));
        isv!(l.get_coordinates(), v.clone(), v, "original after replacing the points of a copy");
        ensure!(c3.get_num_points() == 1 && c3.get_coordinates()[0].x == 9.0, "replaced points");
        // the exposed sequence is a copy
        let mut s = l.get_coordinate_sequence();
        if !v.is_empty() { s.set_ordinate(0, 0, 77.0); }
        isv!(l.get_coordinates(), v.clone(), v, "line after writing to its exposed sequence");
        x.t(12);
    }
    // rings
    let r = LinearRing::new_with_coordinates(v);
    isv!(r.get_coordinates(), v.clone(), v, "ring");
    let c = r.copy();
    isv!(c.get_coordinates(), v.clone(), v, "ring copy");
    isv!(r.reverse().get_coordinates(), rev(v), v, "ring reverse");
    isv!(r.reverse_internal().get_coordinates(), rev(v), v, "ring internal reverse");
    isv!(r.reverse().reverse().get_coordinates(), v.clone(), v, "ring double reverse");
    ensure!(r.equals_exact(&c, 0.0), "ring {} does not equal its copy", sh(v));
    let mut e = r.clone();
    ensure!(env_is(&e.get_envelope_internal(), v), "envelope of ring {}", sh(v));
    let mut f = e.reverse();
    ensure!(env_is(&f.get_envelope_internal(), v) && env_is(&e.copy().get_envelope_internal(), v), "envelope of the copy or reverse of ring {}", sh(v));
    isv!(f.get_coordinates(), rev(v), v, "ring reversed after asking for its envelope");
    let mut s = r.get_coordinate_array_sequence();
    if !v.is_empty() { s.set_ordinate(0, 0, 77.0); }
    isv!(r.get_coordinates(), v.clone(), v, "ring after writing to its exposed sequence");
    x.t(9);
    Ok(())
}

/// normal form of a closed ring with a unique smallest point: that point first, clockwise or not
fn ring_norm(v: &V, cw: bool) -> V {
    if v.is_empty() { return vec![]; }
    let n = v.len() - 1;
    let k = (0..n).reduce(|a, b| if lt(&v[b], &v[a]) { b } else { a }).unwrap();
    let mut r: V = (0..n).map(|i| v[(k + i) % n]).collect();
    r.push(r[0]);
    let a: f64 = r.windows(2).map(|w| w[0].x * w[1].y - w[1].x * w[0].y).sum();
    if (a > 0.0) == cw { r.reverse(); }
    r
}
fn cmpv(a: &V, b: &V) -> std::cmp::Ordering {
    for (p, q) in a.iter().zip(b) { if lt(p, q) { return std::cmp::Ordering::Less; } if lt(q, p) { return std::cmp::Ordering::Greater; } }
    a.len().cmp(&b.len())
}
type G = (V, Vec<V>);
fn poly_norm(g: &G) -> G {
    let mut h: Vec<V> = g.1.iter().map(|h| ring_norm(h, false)).collect();
    h.sort_by(cmpv);
    (ring_norm(&g.0, true), h)
}
fn show(g: &G) -> String { format!("{} minus {}", sh(&g.0), g.1.iter().map(sh).collect::<Vec<_>>().join(" ")) }
fn poly(g: &G, pm: Option<f64>) -> Polygon {
    let s = LinearRing::new_with_coordinates(&g.0);
    let h: Vec<LinearRing> = g.1.iter().map(|v| LinearRing::new_with_coordinates(v)).collect();
    match pm { None => Polygon::new_with_linear_ring_vec(&s, &h), Some(p) => Polygon::new_with_linear_ring_vec_precision_model(&s, &h, PrecisionModel::new_with_scale(p)) }
}
fn read(p: &Polygon) -> G { (p.get_exterior_ring().get_coordinates(), (0..p.get_num_interior_ring()).map(|i| p.get_interior_ring_n(i).get_coordinates()).collect()) }
fn eqg(a: &G, b: &G) -> bool { eqv(&a.0, &b.0) && a.1.len() == b.1.len() && a.1.iter().zip(&b.1).all(|(p, q)| eqv(p, q)) }
fn revg(g: &G) -> G { (rev(&g.0), g.1.iter().map(rev).collect()) }
macro_rules! isg { ($g:expr, $w:expr, $v:expr, $($a:tt)*) => { { let (g, w) = ($g, $w); ensure!(eqg(&g, &w), "{} of {} = {} not {}", format!($($a)*), show($v), show(&g), show(&w)); } } }
/// the centroid is rounded exactly when the polygon has a precision model
fn rounded(p: Point, on: bool, g: &G, what: &str) -> Res {
    if let (Some(x), Some(y)) = (p.get_x(), p.get_y()) {
        let r = x.fract() == 0.0 && y.fract() == 0.0;
        if on { ensure!(r, "the {} of {} lost its precision model: centroid {} {}", what, show(g), x, y); }
    }
    Ok(())
}
fn polys(g: &G, norm: bool, x: &mut Ctx) -> Res {
    for pm in [None, Some(1.0)] { for cached in [false, true] {
        let mut p = poly(g, pm);
        if cached { let _ = p.get_envelope_internal(); }
        isg!(read(&p), g.clone(), g, "rings");
        let mut c = p.copy();
        let mut r = p.reverse();
        isg!(read(&c), g.clone(), g, "copy");
        isg!(read(&r), revg(g), g, "reverse");
        isg!(read(&r.reverse()), g.clone(), g, "double reverse");
        ensure!(p.equals_exact(&c, 0.0) && c.equals_exact(&p, 0.0), "{} does not equal its copy", show(g));
        ensure!(env_is(&c.get_envelope_internal(), &g.0) && env_is(&r.get_envelope_internal(), &g.0), "envelope of the copy or reverse of {}", show(g));
        x.t(8);
        if norm {
            rounded(p.copy().get_centroid(), pm.is_some(), g, "copy")?;
            rounded(r.get_centroid(), pm.is_some(), g, "reverse")?;
            let w = poly_norm(g);
            c.self_normalize();
            isg!(read(&c), w.clone(), g, "normal form");
            isg!(read(&p), g.clone(), g, "original after normalizing a copy");
            rounded(c.get_centroid(), pm.is_some(), g, "normal form")?;
            ensure!(env_is(&c.get_envelope_internal(), &g.0), "envelope of the normal form of {}", show(g));
            c.self_normalize();
            isg!(read(&c), w.clone(), g, "twice normalized");
            r.self_normalize();
            ensure!(r.equals_exact(&c, 0.0), "{} and its reverse normalize to {} and {}", show(g), show(&read(&c)), show(&read(&r)));
            // normalizing the original leaves its earlier copy alone
            let c0 = p.copy();
            p.self_normalize();
            isg!(read(&c0), g.clone(), g, "copy after normalizing the original");
            isg!(read(&p), w, g, "normalized original");
            let q = poly(g, pm);
            for cw in [true, false] {
                let mut r = LinearRing::new_with_coordinates(&g.0);
                isv!(q.normalized(&r, cw).get_coordinates(), ring_norm(&g.0, cw), &g.0, "ring normalized with clockwise {}", cw);
                isv!(r.get_coordinates(), g.0.clone(), &g.0, "ring after normalized()");
                Polygon::normalize(&mut r, cw);
                isv!(r.get_coordinates(), ring_norm(&g.0, cw), &g.0, "ring normalized in place with clockwise {}", cw);
            }
            x.t(14);
        }
    } }
    Ok(())
}
fn ring(r: &[I], s: f64, l: usize) -> V {
    let n = r.len();
    // the closing point is the first one, in every ordinate
    r.iter().enumerate().map(|(k, p)| lay((p.0 as f64 * s, p.1 as f64 * s), if k + 1 == n { 0 } else { k }, l)).collect()
}
fn variant(r: &[I], rot: usize, back: bool) -> Vec<I> {
    let n = r.len() - 1;
    let mut v: Vec<I> = (0..n).map(|k| r[(k + rot) % n]).collect();
    v.push(v[0]);
    if back { v.reverse(); }
    v
}

/// the distance criterion of equality within a tolerance: Euclidean, inclusive; zero means identical
fn near(a: (f64, f64), b: (f64, f64), t: f64) -> bool { if t == 0.0 { a == b } else { (a.0 - b.0).powi(2) + (a.1 - b.1).powi(2) <= t * t } }

fn main() {
    let mut k = Check::new("P16");
    k.assume("normal forms are judged on simple rings without repeated points (and empty ones); polygon rings close with the very first coordinate");
    let len = k.q(6, 8);
    k.family("lines and rings: copy, reverse, normalize", seqs(4, 0, len) * 4, |i, x| {
        let mut d = Dec(i);
        let s = seq(&mut d, 4, 0, len);
        let v = pts(&s, d.take(4));
        x.out(if eqv(&v, &line_norm(&v)) { "already normal" } else { "reversed by normalizing" });
        x.note(|| sh(&v));
        lines(&v, x)
    });
    // palindromes and near-palindromes of any length
    k.family("long lines", 4 * 60 * 3, |i, x| {
        let mut d = Dec(i);
        let l = d.take(4);
        let n = d.take(60) + 1;
        let brk = d.take(3);
        let mut s: Vec<usize> = (0..n).map(|j| { let j = j.min(n - 1 - j); (j * 7 + j * j) % 4 }).collect();
        if brk > 0 { let m = n / 2 + if brk == 1 { 0 } else { n / 3 }; let m = m.min(n - 1); s[m] = (s[m] + 1) % 4; }
        lines(&pts(&s, l), x)
    });
    // equality within a tolerance: lines, rings, points, and geometries built of them
    let grid: Vec<(f64, f64)> = vec![(0.0, 0.0), (1.0, 0.0), (0.0, 1.0), (1.0, 1.0), (0.75, 0.0), (-3.0, 4.0), (-0.0, 0.0)];
    let tols = [0.0, 0.25, 0.75, 1.0, 1.25, 5.0, 4.9];
    let el = k.q(2, 3);
    k.family("equality within a tolerance", seqs(7, 0, el) * seqs(7, 0, el) * tols.len() as u64, |i, x| {
        let mut d = Dec(i);
        let (a, b) = (seq(&mut d, 7, 0, el), seq(&mut d, 7, 0, el));
        let t = *d.of(&tols);
        let w = a.len() == b.len() && a.iter().zip(&b).all(|(p, q)| near(grid[*p], grid[*q], t));
        x.out(if w { "equal" } else { "not equal" });
        let (va, vb): (V, V) = (a.iter().enumerate().map(|(k, p)| lay(grid[*p], k, 3)).collect(), b.iter().enumerate().map(|(k, p)| lay(grid[*p], k + 1, 1)).collect());
        let g = line(&va, 0).equals_exact(&line(&vb, 1), t);
        ensure!(g == w, "line {} equals {} within {} = {}", sh(&va), sh(&vb), t, g);
        let (ra, rb) = (LinearRing::new_with_coordinates(&va), LinearRing::new_with_coordinates(&vb));
        let g = ra.equals_exact(&rb, t);
        ensure!(g == w, "ring {} equals {} within {} = {}", sh(&va), sh(&vb), t, g);
        let pa: Vec<Point> = va.iter().map(GeometryFactory::create_point_from_coordinate).collect();
        let pb: Vec<Point> = vb.iter().map(GeometryFactory::create_point_from_coordinate).collect();
        let g = MultiPoint::new_with_points(&pa).equals_exact(MultiPoint::new_with_points(&pb), t);
        ensure!(g == w, "multipoint {} equals {} within {} = {}", sh(&va), sh(&vb), t, g);
        // the same list as shell, as hole, and as one element of a collection
        let sq: V = [(0.0, 0.0), (9.0, 0.0), (9.0, 9.0), (0.0, 0.0)].iter().map(|p| Coordinate::new_xy(p.0, p.1)).collect();
        let shell = LinearRing::new_with_coordinates(&sq);
        for (p, q, n) in [(Polygon::new_with_linear_ring(&ra), Polygon::new_with_linear_ring(&rb), "shell"), (Polygon::new_with_linear_ring_vec(&shell, &vec![ra.copy()]), Polygon::new_with_linear_ring_vec(&shell, &vec![rb.copy()]), "hole"),
            (Polygon::new_with_linear_ring_vec(&shell, &vec![shell.copy(), ra.copy()]), Polygon::new_with_linear_ring_vec(&shell, &vec![shell.copy(), rb.copy()]), "second hole")] {
            let g = p.equals_exact(&q, t);
            ensure!(g == w, "polygon with {} {} equals that with {} within {} = {}", n, sh(&va), sh(&vb), t, g);
            let g = MultiPolygon::new_with_polygons(&vec![p.copy()]).equals_exact(MultiPolygon::new_with_polygons(&vec![q.copy()]), t);
            ensure!(g == w, "multipolygon with {} {} equals that with {} within {} = {}", n, sh(&va), sh(&vb), t, g);
        }
        let other = line(&sq, 0);
        for (p, q) in [(vec![line(&va, 0)], vec![line(&vb, 0)]), (vec![other.copy(), line(&va, 0)], vec![other.copy(), line(&vb, 0)]), (vec![line(&va, 0), other.copy()], vec![line(&vb, 0), other.copy()])] {
            let g = MultiLineString::new_with_line_strings(&p).equals_exact(&MultiLineString::new_with_line_strings(&q), t);
            ensure!(g == w, "multilinestring with {} equals that with {} within {} = {}", sh(&va), sh(&vb), t, g);
        }
        x.t(12);
        if a.len() <= 1 && b.len() <= 1 {
            let mk = |v: &V| if v.is_empty() { Point::default() } else { Point::new_with_coordinate(&v[0], None) };
            let g = mk(&va).equals_exact(&mk(&vb), t);
            ensure!(g == w, "point {} equals {} within {} = {}", sh(&va), sh(&vb), t, g);
        }
        Ok(())
    });
    // the tolerance is met up to its last bit, at every scale
    k.family("tolerances in the last bit", 1001 * 3 * 4, |i, x| {
        let mut d = Dec(i);
        let v = 2f64.powi(d.take(1001) as i32 - 500) * 1.375;
        let u = d.take(3) as i64 - 1;
        let (qx, qy) = [(v, 0.0), (-v, 0.0), (0.0, v), (0.0, -v)][d.take(4)];
        let t = geosmc::num::ulp(v, u);
        let w = u >= 0;
        let (va, vb): (V, V) = ([(0.0, 0.0); 4].iter().map(|p| Coordinate::new_xy(p.0, p.1)).collect(), [(0.0, 0.0), (0.0, 0.0), (qx, qy), (0.0, 0.0)].iter().map(|p| Coordinate::new_xy(p.0, p.1)).collect());
        x.note(|| format!("({:e},{:e}) within {:e}", qx, qy, t));
        x.out(if w { "equal" } else { "not equal" });
        for (a, b) in [(&va, &vb), (&vb, &va)] {
            let (ra, rb) = (LinearRing::new_with_coordinates(a), LinearRing::new_with_coordinates(b));
            let (pa, pb) = (Polygon::new_with_linear_ring(&ra), Polygon::new_with_linear_ring(&rb));
            let g = [line(a, 0).equals_exact(&line(b, 1), t), ra.equals_exact(&rb, t), pa.equals_exact(&pb, t),
                Polygon::new_with_linear_ring_vec(&ra, &vec![ra.copy()]).equals_exact(&Polygon::new_with_linear_ring_vec(&ra, &vec![rb.copy()]), t),
                GeometryFactory::create_point_from_coordinate(&a[2]).equals_exact(&GeometryFactory::create_point_from_coordinate(&b[2]), t),
                MultiPoint::new_with_points(&vec![GeometryFactory::create_point_from_coordinate(&a[2])]).equals_exact(MultiPoint::new_with_points(&vec![GeometryFactory::create_point_from_coordinate(&b[2])]), t),
                MultiLineString::new_with_line_strings(&vec![line(a, 0)]).equals_exact(&MultiLineString::new_with_line_strings(&vec![line(b, 0)]), t),
                MultiPolygon::new_with_polygons(&vec![pa.copy()]).equals_exact(MultiPolygon::new_with_polygons(&vec![pb.copy()]), t)];
            ensure!(g.iter().all(|g| *g == w), "points ({:e},{:e}) apart within {:e}: [line ring polygon hole point multi-point -line -polygon] {:?}", qx, qy, t, g);
            x.t(8);
        }
        Ok(())
    });
    k.family("different numbers of parts are never equal", 4 * 4 * 3, |i, x| {
        let mut d = Dec(i);
        let (a, b) = (d.take(4), d.take(4));
        let t = *d.of(&[0.0, 1.0, 100.0]);
        let sq: V = [(0.0, 0.0), (9.0, 0.0), (9.0, 9.0), (0.0, 0.0)].iter().map(|p| Coordinate::new_xy(p.0, p.1)).collect();
        let r = LinearRing::new_with_coordinates(&sq);
        let p = |n: usize| Polygon::new_with_linear_ring_vec(&r, &vec![r.copy(); n]);
        let w = a == b;
        ensure!(p(a).equals_exact(&p(b), t) == w, "polygons with {} and {} equal holes", a, b);
        ensure!(MultiPolygon::new_with_polygons(&vec![p(1); a]).equals_exact(MultiPolygon::new_with_polygons(&vec![p(1); b]), t) == w, "multipolygons of {} and {}", a, b);
        ensure!(MultiLineString::new_with_line_strings(&vec![line(&sq, 0); a]).equals_exact(&MultiLineString::new_with_line_strings(&vec![line(&sq, 0); b]), t) == w, "multilinestrings of {} and {}", a, b);
        ensure!(MultiPoint::new_with_points(&vec![Point::default(); a]).equals_exact(MultiPoint::new_with_points(&vec![Point::default(); b]), t) == w, "multipoints of {} and {}", a, b);
        x.t(4);
        Ok(())
    });
    // points
    k.family("points", 7 * 4 + 1, |i, x| {
        let v: V = if i == 28 { vec![] } else { vec![lay(grid[i as usize % 7], 3, i as usize / 7)] };
        let all = if v.is_empty() { vec![Point::default(), GeometryFactory::create_point()] } else { vec![Point::new_with_coordinate(&v[0], None), Point::new_with_coordinate(&v[0], Some(PrecisionModel::default())), GeometryFactory::create_point_from_coordinate(&v[0]), Point::new_with_coordinate_seq(&CoordinateArraySequence::new_with_coordinates(&v))] };
        for mut p in all {
            isv!(p.get_coordinates(), v.clone(), &v, "point");
            isv!(p.copy().get_coordinates(), v.clone(), &v, "copy of point");
            isv!(p.reverse().get_coordinates(), v.clone(), &v, "reverse of point");
            isv!(p.reverse_internal().get_coordinates(), v.clone(), &v, "internal reverse of point");
            ensure!(p.equals_exact(&p.copy(), 0.0) && p.equals_exact(&p.reverse(), 0.0), "point {} and its copies", sh(&v));
            ensure!(env_is(&p.get_envelope_internal(), &v) && env_is(&p.reverse().get_envelope_internal(), &v) && env_is(&p.copy().get_envelope_internal(), &v), "envelope of point {}", sh(&v));
            let mut s = p.get_coordinate_sequence();
            if !v.is_empty() { s.set_ordinate(0, 0, 55.0); }
            isv!(p.get_coordinates(), v.clone(), &v, "point after writing to its exposed sequence");
            x.t(7);
        }
        Ok(())
    });
    // polygons without holes: every simple ring (hence every rotation and reversal of it), in every layout
    let rings = simple_rings(3, 3, k.q(6, 8));
    k.family("shells: normal form", rings.len() as u64 * 4, |i, x| {
        let mut d = Dec(i);
        let r = d.of(&rings);
        let g = (ring(r, 1.0, d.take(4)), vec![]);
        x.out(if area2(r) > 0 { "clockwise" } else { "counter-clockwise" });
        x.note(|| show(&g));
        polys(&g, true, x)
    });
    // holes: every choice, order, rotation and direction
    let cat: [&[I]; 6] = [&[(1, 1), (2, 1), (1, 2), (1, 1)], &[(1, 1), (2, 2), (1, 3), (1, 1)], &[(5, 1), (6, 1), (6, 2), (5, 2), (5, 1)], &[(1, 5), (2, 5), (3, 6), (1, 5)], &[(5, 5), (7, 6), (6, 7), (5, 5)], &[]];
    let shell: &[I] = &[(0, 0), (9, 0), (9, 9), (4, 7), (0, 9), (0, 0)];
    let hmax = k.q(3, 4);
    k.family("polygons with holes: normal form", 10 * (0..=hmax).map(|h| pow(6 * 6, h)).sum::<u64>(), |i, x| {
        let mut d = Dec(i);
        let (rot, back) = (d.take(5), d.bit());
        let hs = seq(&mut d, 36, 0, hmax);
        let g: G = (ring(&variant(shell, rot, back), 0.5, 1), hs.iter().map(|h| { let r = cat[h % 6]; if r.is_empty() { vec![] } else { ring(&variant(r, h / 6 / 2, h / 6 % 2 == 1), 0.5, 1) } }).collect());
        // the same ring twice with different Z has no canonical order
        let mut keys: Vec<usize> = hs.iter().map(|h| h % 6).filter(|h| *h != 5).collect();
        keys.sort();
        if keys.windows(2).any(|w| w[0] == w[1]) { return x.skip(); }
        x.out(match hs.len() { 0 => "no hole", 1 => "one hole", _ => "several holes" });
        x.note(|| show(&g));
        polys(&g, true, x)
    });
    let any = k.q(4, 5);
    k.family("polygons of any rings: copy and reverse", seqs(3, 0, any) * seqs(3, 0, 2) * seqs(3, 0, 2), |i, x| {
        let mut d = Dec(i);
        let (a, b, c) = (seq(&mut d, 3, 0, any), seq(&mut d, 3, 0, 2), seq(&mut d, 3, 0, 2));
        if a.is_empty() && (!b.is_empty() || !c.is_empty()) { return x.skip(); }
        polys(&(pts(&a, 3), vec![pts(&b, 1), pts(&c, 2)]), false, x)
    });
    // long convex rings: every size, every starting point, both directions
    let big = k.q(40usize, 130);
    let arc = |n: usize, o: i64| -> Vec<I> { let mut r: Vec<I> = (0..n as i64).map(|j| (j + o, j * j)).collect(); r.push(r[0]); r };
    k.family("long rings: normal form", (big * big) as u64 * 2 * 4, |i, x| {
        let mut d = Dec(i);
        let (n, rot) = (d.take(big) + 3, d.take(big));
        let back = d.bit();
        let l = d.take(4);
        if rot >= n { return x.skip(); }
        let g = (ring(&variant(&arc(n, -4), rot, back), 1.0, l), vec![]);
        x.out(if back { "clockwise" } else { "counter-clockwise" });
        x.note(|| format!("{} points, rotated by {}, reversed {}", n, rot, back));
        polys(&g, true, x)
    });
    // every number of holes, in every rotation of their order, both ways round
    let hn = k.q(20usize, 60);
    k.family("many holes: normal form", (hn * hn) as u64 * 2 * 3, |i, x| {
        let mut d = Dec(i);
        let (n, rot) = (d.take(hn) + 1, d.take(hn));
        let (back, kind) = (d.bit(), d.take(3));
        if rot >= n { return x.skip(); }
        // holes in columns of four; kinds: triangles, the same x for all, mixed sizes and directions
        let mut hs: Vec<Vec<I>> = (0..n as i64).map(|j| {
            let (cx, cy) = if kind == 1 { (1, 4 * j + 1) } else { (4 * (j / 4) + 1, 4 * (j % 4) + 1) };
            let r: Vec<I> = if kind == 2 && j % 3 == 0 { vec![(cx, cy), (cx + 2, cy), (cx + 2, cy + 2), (cx, cy + 2), (cx, cy)] } else { vec![(cx, cy), (cx + 2, cy), (cx, cy + 2), (cx, cy)] };
            variant(&r, (j as usize * 5) % (r.len() - 1), (j as usize + kind) % 2 == 1)
        }).collect();
        hs.rotate_left(rot);
        if back { hs.reverse(); }
        let side = 4 * hn as i64 + 8;
        let g: G = (ring(&[(0, 0), (side, 0), (side, side), (0, side), (0, 0)], 0.5, 1), hs.iter().map(|h| ring(h, 0.5, 1)).collect());
        x.out("several holes");
        x.note(|| format!("{} holes of kind {} rotated by {}", n, kind, rot));
        polys(&g, true, x)
    });
    // long lines and rings are compared to their last point; a collection to its last element
    let big = k.q(70usize, 250);
    k.family("one difference anywhere", (big * big) as u64 * 4, |i, x| {
        let mut d = Dec(i);
        let (n, p) = (d.take(big) + 1, d.take(big));
        let (dx, t) = *d.of(&[(0.5, 0.0), (0.5, 0.25), (0.5, 0.5), (-0.5, 0.75)]);
        if p >= n { return x.skip(); }
        let v: V = (0..n).map(|k| lay((k as f64, (k * k % 17) as f64), k, 1)).collect();
        let mut w = v.clone();
        w[p].x += dx;
        let same = t >= 0.5;
        x.out(if same { "equal" } else { "not equal" });
        x.note(|| format!("{} points, number {} moved by {}, tolerance {}", n, p, dx, t));
        for (a, b) in [(&v, &w), (&w, &v)] {
            ensure!(line(a, 0).equals_exact(&line(b, 1), t) == same, "lines of {} points differing at {} by {}, within {}", n, p, dx, t);
            ensure!(LinearRing::new_with_coordinates(a).equals_exact(&LinearRing::new_with_coordinates(b), t) == same, "rings of {} points differing at {} by {}, within {}", n, p, dx, t);
            ensure!(Polygon::new_with_linear_ring(&LinearRing::new_with_coordinates(a)).equals_exact(&Polygon::new_with_linear_ring(&LinearRing::new_with_coordinates(b)), t) == same, "polygons of {} points differing at {} by {}, within {}", n, p, dx, t);
            let mp = |v: &V| MultiPoint::new_with_points(&v.iter().map(GeometryFactory::create_point_from_coordinate).collect());
            ensure!(mp(a).equals_exact(mp(b), t) == same, "multipoints of {} points differing at {} by {}, within {}", n, p, dx, t);
            let ml = |v: &V| MultiLineString::new_with_line_strings(&v.iter().map(|c| line(&vec![*c, Coordinate::new_xy(-1.0, -1.0)], 0)).collect());
            ensure!(ml(a).equals_exact(&ml(b), t) == same, "multilinestrings of {} lines differing at {} by {}, within {}", n, p, dx, t);
            let pg = |v: &V| { let r: Vec<LinearRing> = v.iter().map(|c| LinearRing::new_with_coordinates(&vec![*c, Coordinate::new_xy(-1.0, -1.0), Coordinate::new_xy(-2.0, 0.0), *c])).collect(); (Polygon::new_with_linear_ring_vec(&r[0], &r[1..].to_vec()), MultiPolygon::new_with_polygons(&r.iter().map(Polygon::new_with_linear_ring).collect())) };
            let ((pa, ma), (pb, mb)) = (pg(a), pg(b));
            ensure!(pa.equals_exact(&pb, t) == same, "polygons of {} rings differing at {} by {}, within {}", n, p, dx, t);
            ensure!(ma.equals_exact(mb, t) == same, "multipolygons of {} elements differing at {} by {}, within {}", n, p, dx, t);
        }
        x.t(14);
        // so is a copied or reversed collection: it has every element, none of them twice
        let tri = |j: usize, turned: bool| -> V { let o = j as f64 + if j == p { dx } else { 0.0 }; let v: V = [(o, 0.0), (o, 1.0), (o + 0.25, 1.0), (o, 0.0)].iter().enumerate().map(|(k, c)| lay(*c, j + k, 1)).collect(); if turned { rev(&v) } else { v } };
        let mpg = |turned: bool| MultiPolygon::new_with_polygons(&(0..n).map(|j| Polygon::new_with_linear_ring(&LinearRing::new_with_coordinates(&tri(j, turned)))).collect());
        for (g, turned) in [(mpg(false).copy(), false), (mpg(false).reverse(), true), (mpg(true).reverse().copy(), false)] {
            ensure!(g.get_num_polygons() == n && (0..n).all(|j| { let (a, b) = (g.get_polygon_at_index(j).get_coordinates(), tri(j, turned)); a.len() == 4 && a.iter().zip(&b).all(|(a, b)| s2(a, b)) }), "copy or reverse of a multipolygon of {}", n);
        }
        let mln = |turned: bool| MultiLineString::new_with_line_strings(&(0..n).map(|j| line(&tri(j, turned), j % 2)).collect());
        let ml = mln(false);
        ensure!(ml.reverse().equals_exact(&mln(true), 0.0) && ml.copy_internal().equals_exact(&ml, 0.0) && !ml.reverse().equals_exact(&ml, 0.0), "copy or reverse of a multilinestring of {}", n);
        let mpt = MultiPoint::new_with_points(&w.iter().map(GeometryFactory::create_point_from_coordinate).collect());
        for g in [mpt.copy(), mpt.reverse()] { isv!(g.get_coordinates(), w.clone(), &w, "copy or reverse of a multipoint"); }
        let holes = |turned: bool| Polygon::new_with_linear_ring_vec(&LinearRing::new_with_coordinates(&tri(n, turned)), &(0..n).map(|j| LinearRing::new_with_coordinates(&tri(j, turned))).collect());
        let pg = holes(false);
        ensure!(pg.copy().equals_exact(&pg, 0.0) && pg.copy().get_num_interior_ring() == n && pg.reverse().equals_exact(&holes(true), 0.0) && !pg.reverse().equals_exact(&pg, 0.0), "copy or reverse of a polygon with {} holes", n);
        x.t(10);
        // copies and reversals of the whole
        let (l, m) = (line(&v, 0), line(&w, 0));
        isv!(l.copy().get_coordinates(), v.clone(), &v, "copy");
        isv!(m.reverse().get_coordinates(), rev(&w), &w, "reverse");
        let mut c = m.copy(); c.normalize();
        isv!(c.get_coordinates(), line_norm(&w), &w, "normal form");
        // a palindrome broken at p normalizes by that point
        let mut q: V = (0..n).map(|k| lay((k.min(n - 1 - k) as f64, 0.0), k, 1)).collect();
        q[p].y += dx;
        let mut c = line(&q, 1); c.normalize();
        isv!(c.get_coordinates(), line_norm(&q), &q, "normal form");
        x.t(4);
        Ok(())
    });
    // more points, holes and elements than eight or sixteen bits count
    let hg = huge(70001);
    k.family("huge lines, rings and collections", hg.len() as u64 * 2, |i, x| {
        let mut d = Dec(i);
        let (n, p) = *d.of(&hg);
        let (dx, t) = if d.bit() { (0.5, 0.25) } else { (-0.5, 0.75) };
        let v: V = (0..n).map(|k| lay((k as f64, (k * k % 17) as f64), k, 1)).collect();
        let mut w = v.clone();
        w[p].x += dx;
        let same = t >= 0.5;
        x.out(if same { "equal" } else { "not equal" });
        x.note(|| format!("{} points, number {} moved by {}, tolerance {}", n, p, dx, t));
        for (a, b) in [(&v, &w), (&w, &v)] {
            ensure!(line(a, 0).equals_exact(&line(b, 1), t) == same, "lines of {} points differing at {} by {}, within {}", n, p, dx, t);
            let (ra, rb) = (LinearRing::new_with_coordinates(a), LinearRing::new_with_coordinates(b));
            ensure!(ra.equals_exact(&rb, t) == same, "rings of {} points differing at {} by {}, within {}", n, p, dx, t);
            ensure!(Polygon::new_with_linear_ring(&ra).equals_exact(&Polygon::new_with_linear_ring(&rb), t) == same, "polygons of {} points differing at {} by {}, within {}", n, p, dx, t);
            let mp = |v: &V| MultiPoint::new_with_points(&v.iter().map(GeometryFactory::create_point_from_coordinate).collect());
            ensure!(mp(a).equals_exact(mp(b), t) == same, "multipoints of {} points differing at {} by {}, within {}", n, p, dx, t);
            let ml = |v: &V| MultiLineString::new_with_line_strings(&v.iter().map(|c| line(&vec![*c, Coordinate::new_xy(-1.0, -1.0)], 0)).collect());
            ensure!(ml(a).equals_exact(&ml(b), t) == same, "multilinestrings of {} lines differing at {} by {}, within {}", n, p, dx, t);
            let pg = |v: &V| { let r: Vec<LinearRing> = v.iter().map(|c| LinearRing::new_with_coordinates(&vec![*c, Coordinate::new_xy(-1.0, -1.0), Coordinate::new_xy(-2.0, 0.0), *c])).collect(); (Polygon::new_with_linear_ring_vec(&LinearRing::new_with_coordinates(&v[..2.min(n)].to_vec()), &r), MultiPolygon::new_with_polygons(&r.iter().map(Polygon::new_with_linear_ring).collect())) };
            if n <= 5000 || (p + 1 == n && !same) {
                let ((pa, ma), (pb, mb)) = (pg(a), pg(b));
                ensure!(pa.equals_exact(&pb, t) == same, "polygons of {} holes differing at {} by {}, within {}", n, p, dx, t);
                ensure!(ma.equals_exact(mb, t) == same, "multipolygons of {} elements differing at {} by {}, within {}", n, p, dx, t);
            }
        }
        // a palindrome broken at p normalizes by that point
        let mut q: V = (0..n).map(|k| lay((k.min(n - 1 - k) as f64, 0.0), k, 1)).collect();
        q[p].y += dx;
        lines(&q, x)?;
        // a copy and a reversal of a collection
        let at = |v: &V| -> Vec<Point> { v.iter().map(GeometryFactory::create_point_from_coordinate).collect() };
        let mut m = MultiPoint::new_with_points(&at(&w));
        isv!(m.copy().get_coordinates(), w.clone(), &w, "copy of a multipoint");
        isv!(m.reverse().get_coordinates(), w.clone(), &w, "reverse of a multipoint");
        ensure!(env_is(&m.copy().get_envelope_internal(), &w) && env_is(&m.get_envelope_internal(), &w), "envelope of a multipoint of {}", n);
        let ml = |v: &V, back: bool| MultiLineString::new_with_line_strings(&v.iter().map(|c| line(&if back { vec![Coordinate::new_xy(-1.0, -1.0), *c] } else { vec![*c, Coordinate::new_xy(-1.0, -1.0)] }, 0)).collect());
        let l = ml(&w, false);
        ensure!(l.reverse().equals_exact(&ml(&w, true), 0.0) && l.copy_internal().equals_exact(&l, 0.0), "copy or reverse of a multilinestring of {}", n);
        // different numbers of parts are different
        let fewer = w[..n - 256].to_vec();
        ensure!(!MultiPoint::new_with_points(&at(&w)).equals_exact(MultiPoint::new_with_points(&at(&fewer)), 1e9) && !l.equals_exact(&ml(&fewer, false), 1e9) && !line(&w, 0).equals_exact(&line(&fewer, 0), 1e9), "{} parts equal {}", n, n - 256);
        if n > 65536 {
            let fewer = w[..n - 65536].to_vec();
            ensure!(!MultiPoint::new_with_points(&at(&w)).equals_exact(MultiPoint::new_with_points(&at(&fewer)), 1e9) && !l.equals_exact(&ml(&fewer, false), 1e9) && !line(&w, 0).equals_exact(&line(&fewer, 0), 1e9), "{} parts equal {}", n, n - 65536);
        }
        x.t(26);
        Ok(())
    });
    k.family("huge rings and many holes: normal form", hg.len() as u64 * 2 * 2, |i, x| {
        let mut d = Dec(i);
        let (n, rot) = *d.of(&hg);
        let (back, holes) = (d.bit(), d.bit());
        x.note(|| format!("{} points or holes, rotated by {}, reversed {}", n, rot, back));
        let g = if holes {
            if n > 5000 && !(n == 65537 && rot == 65535) { return x.skip(); }
            let mut hs: Vec<Vec<I>> = (0..n as i64).map(|j| { let (cx, cy) = (4 * (j / 8) + 1, 4 * (j % 8) + 1); variant(&[(cx, cy), (cx + 2, cy), (cx, cy + 2), (cx, cy)], j as usize % 3, j % 2 == 1) }).collect();
            hs.rotate_left(rot);
            if back { hs.reverse(); }
            let side = n as i64 + 40;
            (ring(&[(0, 0), (side, 0), (side, side), (0, side), (0, 0)], 0.5, 1), hs.iter().map(|h| ring(h, 0.5, 1)).collect())
        } else {
            if n > 5000 && n != 65537 && n != 32769 { return x.skip(); }
            (ring(&variant(&arc(n, -4), rot, back), 1.0, (n + rot) % 4), vec![])
        };
        x.out(if holes { "several holes" } else if back { "clockwise" } else { "counter-clockwise" });
        polys(&g, true, x)
    });
    // histories of operations on one polygon, one ring and one line
    let gs: Vec<G> = vec![
        (ring(&[(0, 0), (9, 0), (9, 9), (4, 7), (0, 9), (0, 0)], 1.0, 1), vec![]),
        (ring(&[(9, 9), (9, 0), (0, 0), (0, 9), (9, 9)], 1.0, 3), vec![ring(&[(5, 5), (7, 6), (6, 7), (5, 5)], 1.0, 3)]),
        (ring(&[(0, 9), (0, 0), (9, 0), (9, 9), (4, 7), (0, 9)], 1.0, 0), vec![ring(&[(5, 5), (6, 7), (7, 6), (5, 5)], 1.0, 0), vec![], ring(&[(1, 2), (1, 1), (2, 1), (1, 2)], 1.0, 0)]),
    ];
    let hl = k.q(5, 7);
    k.family("polygon histories", pow(8, hl) * 3 * 2, |i, x| {
        let mut d = Dec(i);
        let h: Vec<usize> = (0..hl).map(|_| d.take(8)).collect();
        let g0 = d.of(&gs);
        let pm = if d.bit() { Some(1.0) } else { None };
        let mut p = poly(g0, pm);
        let orig = p.clone();
        let mut m = g0.clone();
        for o in &h {
            match o {
                0 => { let _ = p.get_envelope_internal(); }
                1 => { let _ = p.compute_envelope_internal(); }
                2 => p = p.copy(),
                3 => { p = p.reverse(); m = revg(&m); }
                4 => { p.self_normalize(); m = poly_norm(&m); }
                5 => { let mut q = p.clone(); q.self_normalize(); let _ = q.reverse(); }
                6 => { let c = p.get_centroid(); ensure!(c.get_coordinates().len() == 1, "centroid of {}", show(&m)); }
                _ => { let s = p.get_exterior_ring(); let _ = (p.get_area(), p.get_length(), p.is_rectangle(), s.reverse()); }
            }
            x.t(1);
            isg!(read(&p), m.clone(), g0, "history {:?}", h);
            ensure!(env_is(&p.clone().get_envelope_internal(), &m.0), "envelope of {} after {:?}", show(g0), h);
        }
        x.out("history");
        x.note(|| format!("{:?} on {}", h, show(g0)));
        isg!(read(&orig), g0.clone(), g0, "original after history {:?}", h);
        rounded(p.get_centroid(), pm.is_some(), g0, "end of a history")
    });
    k.family("ring and line histories", pow(8, hl) * 5, |i, x| {
        let mut d = Dec(i);
        let h: Vec<usize> = (0..hl).map(|_| d.take(8)).collect();
        let v0 = [gs[0].0.clone(), gs[1].0.clone(), rev(&gs[2].0), gs[2].1[0].clone(), vec![]][d.take(5)].clone();
        let pg = poly(&gs[0], None);
        let (mut r, mut v) = (LinearRing::new_with_coordinates(&v0), v0.clone());
        let (mut l, mut w) = (line(&v0, 0), v0.clone());
        let repl: [V; 2] = [pts(&[0, 1, 2], 1), pts(&[2, 0], 3)];
        let orig = r.clone();
        for o in &h {
            match o {
                0 => { let _ = r.get_envelope_internal(); let _ = l.compute_envelope_internal(); }
                1 => { r = r.copy(); l = l.copy(); }
                2 => { r = r.reverse(); v.reverse(); l = l.reverse(); w.reverse(); }
                3 => { Polygon::normalize(&mut r, true); v = ring_norm(&v, true); l.normalize(); w = line_norm(&w); }
                4 => { Polygon::normalize(&mut r, false); v = ring_norm(&v, false); }
                5 => { let q = pg.normalized(&r, true); isv!(q.get_coordinates(), ring_norm(&v, true), &v, "normalized ring"); r = q.reverse(); v = rev(&ring_norm(&v, true)); }
                6 => { l.init(CoordinateArraySequence::new_with_coordinates(&repl[0])); w = repl[0].clone(); }
                _ => { let c = l.copy(); l.init(CoordinateArraySequence::new_with_coordinates(&repl[1])); isv!(c.get_coordinates(), w.clone(), &w, "copy after replacing the points of the original"); w = repl[1].clone(); }
            }
            x.t(2);
            isv!(r.get_coordinates(), v.clone(), &v0, "ring history {:?}", h);
            isv!(l.get_coordinates(), w.clone(), &v0, "line history {:?}", h);
            ensure!(env_is(&r.clone().get_envelope_internal(), &v) && env_is(&r.compute_envelope_internal(), &v), "envelope of ring {} after {:?}", sh(&v0), h);
            ensure!(env_is(&l.compute_envelope_internal(), &w), "envelope of line {} after {:?}", sh(&v0), h);
        }
        x.out("history");
        x.note(|| format!("{:?} on {}", h, sh(&v0)));
        isv!(orig.get_coordinates(), v0.clone(), &v0, "original after history {:?}", h);
        Ok(())
    });
    // the tolerance is inclusive at every scale
    k.family("tolerance to the last bit", 801 * 3 * 4, |i, x| {
        let mut d = Dec(i);
        let t = d.take(3) as i64 - 1;
        let (dx, dy) = [(1.0, 0.0), (0.0, 1.0), (-1.0, 0.0), (0.0, -1.0)][d.take(4)];
        let v = 1.25 * 2f64.powi(d.take(801) as i32 - 400);
        let o = ulp(v, t);
        let (a, b): (V, V) = (vec![Coordinate::new_xy(0.0, 0.0), Coordinate::new_xy(dx * o, dy * o)], vec![Coordinate::new_xy(0.0, 0.0), Coordinate::new_xy(0.0, 0.0)]);
        let w = t <= 0;
        x.out(if w { "equal" } else { "not equal" });
        x.note(|| format!("distance {:e} tolerance {:e}", o, v));
        x.t(3);
        ensure!(line(&a, 0).equals_exact(&line(&b, 0), v) == w, "lines {:e} apart, tolerance {:e}", o, v);
        ensure!(LinearRing::new_with_coordinates(&a).equals_exact(&LinearRing::new_with_coordinates(&b), v) == w, "rings {:e} apart, tolerance {:e}", o, v);
        ensure!(Point::new_with_coordinate(&a[1], None).equals_exact(&Point::new_with_coordinate(&b[1], None), v) == w, "points {:e} apart, tolerance {:e}", o, v);
        Ok(())
    });
    // collections
    let parts: [&[usize]; 6] = [&[], &[0], &[0, 1], &[1, 0, 2, 1], &[2, 2, 0], &[3, 0, 1, 2, 3]];
    let cm = k.q(3, 5);
    k.family("collections: copy, reverse", seqs(6, 0, cm) * 2, |i, x| {
        let mut d = Dec(i);
        let s = seq(&mut d, 6, 0, cm);
        let scale = if d.bit() { Some(2.0) } else { None };
        let vs: Vec<V> = s.iter().map(|p| pts(parts[*p], 3)).collect();
        let rs: Vec<V> = vs.iter().map(rev).collect();
        let same_t = |v: &Vec<V>| vs.iter().zip(v).all(|(a, b)| a.len() == b.len() && a.iter().zip(b).all(|(p, q)| s2(p, q)));
        // lines
        let mk = |v: &Vec<V>| { let l: Vec<LineString> = v.iter().map(|v| line(v, 0)).collect(); match scale { None => MultiLineString::new_with_line_strings(&l), Some(p) => MultiLineString::new_with_line_strings_precision_model(&l, PrecisionModel::new_with_scale(p)) } };
        let m = mk(&vs);
        ensure!(m.equals_exact(&mk(&vs), 0.0) && m.equals_exact(&m.copy_internal(), 0.0) && m.copy_internal().equals_exact(&m, 0.0), "copy of multilinestring {:?}", s);
        ensure!(m.reverse().equals_exact(&mk(&rs), 0.0), "reverse of multilinestring {:?}", s);
        ensure!(m.reverse().reverse().equals_exact(&m, 0.0), "double reverse of multilinestring {:?}", s);
        ensure!(m.reverse().equals_exact(&m, 0.0) == same_t(&rs), "multilinestring {:?} equals its reverse", s);
        // polygons
        let mp = |v: &Vec<V>| { let l: Vec<Polygon> = v.iter().map(|v| Polygon::new_with_linear_ring_vec(&LinearRing::new_with_coordinates(v), &if v.is_empty() { vec![] } else { vec![LinearRing::new_with_coordinates(&v[..1].to_vec())] })).collect(); match scale { None => MultiPolygon::new_with_polygons(&l), Some(p) => MultiPolygon::new_with_polygons_precision_model(&l, PrecisionModel::new_with_scale(p)) } };
        let m = mp(&vs);
        let rd = |m: &MultiPolygon| -> Vec<G> { (0..m.get_num_polygons()).map(|k| read(&m.get_polygon_at_index(k))).collect() };
        let want: Vec<G> = vs.iter().map(|v| (v.clone(), if v.is_empty() { vec![] } else { vec![v[..1].to_vec()] })).collect();
        for (nm, g, w) in [("elements", rd(&m), want.clone()), ("copy", rd(&m.copy()), want.clone()), ("reverse", rd(&m.reverse()), want.iter().map(revg).collect()), ("double reverse", rd(&m.reverse().reverse()), want.clone())] {
            ensure!(g.len() == w.len() && g.iter().zip(&w).all(|(a, b)| eqg(a, b)), "{} of multipolygon {:?} = {}", nm, s, g.iter().map(show).collect::<Vec<_>>().join(" | "));
        }
        ensure!(m.equals_exact(m.copy(), 0.0), "multipolygon {:?} does not equal its copy", s);
        if scale.is_some() { for (nm, c) in [("multipolygon", m.get_centroid()), ("copy", m.copy().get_centroid()), ("reverse", m.reverse().get_centroid())] {
            if let (Some(a), Some(b)) = (c.get_x(), c.get_y()) { ensure!((a * 2.0).fract() == 0.0 && (b * 2.0).fract() == 0.0, "the {} of {:?} lost its precision model: centroid {} {}", nm, s, a, b); }
        } }
        // points: the first coordinate of each part, or an empty point
        let ps: Vec<V> = vs.iter().map(|v| v[..v.len().min(1)].to_vec()).collect();
        let pp: Vec<Point> = ps.iter().map(|v| if v.is_empty() { Point::default() } else { GeometryFactory::create_point_from_coordinate(&v[0]) }).collect();
        for cached in [false, true] {
            let mut m = match scale { None => MultiPoint::new_with_points(&pp), Some(p) => MultiPoint::new_with_points_precision_model(&pp, PrecisionModel::new_with_scale(p)) };
            if cached { let _ = m.get_envelope_internal(); }
            let all: V = ps.concat();
            for (nm, mut g) in [("copy", m.copy()), ("reverse", m.reverse()), ("double reverse", m.reverse().reverse())] {
                for (k, w) in ps.iter().enumerate() { let p = g.get_point_at_index(k); ensure!(p.as_ref().map(|p| eqv(&p.get_coordinates(), w)).unwrap_or(false), "point {} of the {} of multipoint {:?}", k, nm, s); }
                ensure!(g.get_point_at_index(ps.len()).is_none(), "{} of multipoint {:?} has more points", nm, s);
                isv!(g.get_coordinates(), all.clone(), &all, "{} of multipoint", nm);
                ensure!(g.get_precision_model().map(|p| p.get_scale()) == scale, "precision model of the {} of multipoint {:?}", nm, s);
                ensure!(env_is(&g.get_envelope_internal(), &all), "envelope of the {} of multipoint {:?}", nm, s);
                x.t(5);
            }
            ensure!(m.equals_exact(m.copy(), 0.0), "multipoint {:?} does not equal its copy", s);
            ensure!(m.equals_exact(m.reverse(), 0.0), "multipoint {:?} does not equal its reverse", s);
        }
        x.t(12);
        Ok(())
    });
    k.finish()
}
