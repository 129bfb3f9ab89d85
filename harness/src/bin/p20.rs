// P20 Plane and space vectors, quadrants, positions
use geos_rs::verif::*;
use geosmc::{ensure, exact::*, geo::*, mc::*, num::*};
use std::f64::consts::PI;

type V2 = (f64, f64);
fn mk(v: V2) -> Vector2D { Vector2D::new_from_xy(v.0, v.1) }
fn is(g: &Vector2D, w: V2) -> bool { g.get_x() == w.0 && g.get_y() == w.1 && g.get_component(0) == w.0 && g.get_component(1) == w.1 }
fn sh(g: &Vector2D) -> V2 { (g.get_x(), g.get_y()) }
fn same_dir(a: f64, b: f64, tol: f64) -> bool { let d = (a - b).abs() % (2.0 * PI); d <= tol || 2.0 * PI - d <= tol }
/// length without overflow or underflow
fn len2(v: V2) -> f64 { v.0.hypot(v.1) }

fn pair(u: V2, v: V2, exact: bool, x: &mut Ctx) -> Res {
    let (a, b) = (mk(u), mk(v));
    // lattice operations are exact
    macro_rules! eq { ($n:expr, $g:expr, $w:expr) => { { let g = $g; let w: V2 = $w; x.t(1); ensure!(is(&g, w), "{} of {:?} {:?} = {:?} not {:?}", $n, u, v, sh(&g), w); } } }
    eq!("sum", a.add(&b), (u.0 + v.0, u.1 + v.1));
    eq!("difference", a.subtract(&b), (u.0 - v.0, u.1 - v.1));
    eq!("negation", a.negate(), (-u.0, -u.1));
    eq!("copy", Vector2D::create_from_vector_2d(&a), u);
    eq!("create", Vector2D::create_from_xy(u.0, v.1), (u.0, v.1));
    eq!("vector of coordinate", Vector2D::create_from_coodinate(&Coordinate::new_xy(u.0, u.1)), u);
    eq!("vector from-to", Vector2D::create_from_coordinate_from_to(&Coordinate::new_xy(u.0, u.1), &Coordinate::new_xy(v.0, v.1)), (v.0 - u.0, v.1 - u.1));
    eq!("new from-to", Vector2D::new_from_coordinate_from_to(&Coordinate::new_xyz(u.0, u.1, 7.0), &Coordinate::new_xyz(v.0, v.1, 9.0)), (v.0 - u.0, v.1 - u.1));
    eq!("new of coordinate", Vector2D::new_from_coordinate(&a.to_coordinate()), u);
    eq!("new of vector", Vector2D::new_from_vector_2d(&b), v);
    let t = a.translate(&Coordinate::new_xy(v.0, v.1));
    ensure!(t.x == u.0 + v.0 && t.y == u.1 + v.1, "translating {:?} by {:?} = ({},{})", v, u, t.x, t.y);
    let q = a.to_coordinate();
    ensure!(q.x == u.0 && q.y == u.1, "coordinate of {:?} = ({},{})", u, q.x, q.y);
    ensure!(a.equals(&b) == (u == v), "equals {:?} {:?} = {}", u, v, a.equals(&b));
    let m = u.0.abs().max(u.1.abs()).max(v.0.abs()).max(v.1.abs());
    let g = a.distance(&b);
    let w = len2((u.0 - v.0, u.1 - v.1));
    ensure!(close(g, w, 1e-15, 0.0), "distance {:?} {:?} = {:e} not {:e}", u, v, g, w);
    let (g, w) = (a.length(), len2(u));
    ensure!(close(g, w, 1e-15, 0.0), "length {:?} = {:e} not {:e}", u, g, w);
    x.t(5);
    if m < 1e150 && m > 1e-140 {
        let (g, w) = (a.dot(&b), u.0 * v.0 + u.1 * v.1);
        ensure!(close(g, w, 1e-15, u.0.abs() * v.0.abs() + u.1.abs() * v.1.abs()), "dot {:?} {:?} = {:e} not {:e}", u, v, g, w);
        ensure!(close(a.length_squared(), u.0 * u.0 + u.1 * u.1, 1e-15, 0.0), "squared length {:?} = {:e}", u, a.length_squared());
        if exact { ensure!(g == w && g == b.dot(&a), "dot {:?} {:?} = {} not {}", u, v, g, w); }
        x.t(2);
    }
    let n = a.normalize();
    let l = len2(u);
    x.t(1);
    if l == 0.0 { ensure!(is(&n, (0.0, 0.0)), "normalised zero vector = {:?}", sh(&n)); }
    else {
        ensure!(close(n.length(), 1.0, 1e-15, 1.0), "normalised {:?} has length {}", u, n.length());
        ensure!((n.get_x() - u.0 / l).abs() <= 1e-15 && (n.get_y() - u.1 / l).abs() <= 1e-15, "normalised {:?} = {:?}", u, sh(&n));
    }
    for f in [0.0, 1.0, 0.5, 0.25, -1.0, 2.0, 0.1] {
        let g = a.weighted_sum(&b, f);
        let w = (f * u.0 + (1.0 - f) * v.0, f * u.1 + (1.0 - f) * v.1);
        x.t(1);
        ensure!((g.get_x() - w.0).abs() <= 2e-15 * m && (g.get_y() - w.1).abs() <= 2e-15 * m, "weighted sum {} of {:?} {:?} = {:?} not {:?}", f, u, v, sh(&g), w);
    }
    let g = a.average(&b);
    ensure!((g.get_x() - (u.0 / 2.0 + v.0 / 2.0)).abs() <= 1e-15 * m && (g.get_y() - (u.1 / 2.0 + v.1 / 2.0)).abs() <= 1e-15 * m, "average of {:?} {:?} = {:?}", u, v, sh(&g));
    let g = a.angle();
    ensure!((-PI..=PI).contains(&g) && (g - u.1.atan2(u.0)).abs() <= 3e-15, "angle of {:?} = {}", u, g);
    x.t(2);
    if u != (0.0, 0.0) && v != (0.0, 0.0) {
        let (du, dv) = (u.1.atan2(u.0), v.1.atan2(v.0));
        let g = a.angle_to(&b);
        ensure!(g > -PI && g <= PI && same_dir(g, dv - du, 4e-15), "angle from {:?} to {:?} = {}", u, v, g);
        let h = a.angle_vector_2d(&b);
        ensure!((0.0..=PI).contains(&h) && (same_dir(h, dv - du, 4e-15) || same_dir(h, du - dv, 4e-15)), "angle between {:?} and {:?} = {}", u, v, h);
        x.t(2);
        if m < 1e150 && m > 1e-140 {
            let cr = orient(&Dy::new(0.0), &Dy::new(0.0), &Dy::new(u.0), &Dy::new(u.1), &Dy::new(v.0), &Dy::new(v.1));
            let claimed = (u.0 * v.1 - u.1 * v.0).abs() > 1e-14 * m * m;
            if cr != 0 && claimed { ensure!((g > 0.0) == (cr > 0), "angle from {:?} to {:?} = {} has the wrong sign", u, v, g); x.out("turn"); } else { x.out("nearly parallel"); }
            // products that underflow are outside the claim
            let under = |p: f64, q: f64| p != 0.0 && q != 0.0 && (p * q).abs() < 1e-270;
            if !under(u.0, v.1) && !under(u.1, v.0) { ensure!(a.is_parallel(&b) == (cr == 0), "is_parallel {:?} {:?} = {} but determinant sign is {}", u, v, a.is_parallel(&b), cr); }
            x.t(1);
        }
    }
    // operands are left alone
    ensure!(is(&a, u) && is(&b, v), "operands {:?} {:?} changed to {:?} {:?}", u, v, sh(&a), sh(&b));
    Ok(())
}
fn orient(ax: &Dy, ay: &Dy, bx: &Dy, by: &Dy, cx: &Dy, cy: &Dy) -> i32 {
    bx.sub(ax).mul(&cy.sub(ay)).sub(&by.sub(ay).mul(&cx.sub(ax))).sign()
}

fn main() {
    let mut k = Check::new("P20");
    let n = k.q(13usize, 31);
    let o = -((n / 2) as i64);
    k.family(&format!("vector pairs on {}x{}", n, n), pow(n * n, 2), |i, x| {
        let mut d = Dec(i);
        let (a, b) = (lat(d.take(n * n), n, o), lat(d.take(n * n), n, o));
        x.note(|| format!("{:?} {:?}", a, b));
        pair((a.0 as f64, a.1 as f64), (b.0 as f64, b.1 as f64), true, x)
    });
    let mut al = vec![0.0, -0.0, 1.0, -1.0, 1.0 / 3.0, -0.1, ulp(1.0, 1), ulp(1.0, -1), 1e100, -1e100, 1e-100, 1e8 + 1.0, (1u64 << 53) as f64 - 1.0];
    { al.extend([ulp(-1.0, 1), 2.0, -2.0, ulp(1e100, 1), 3e-100, -(1e8 + 1.0), ulp(1.0 / 3.0, 1), 1e200, 1e-200]); }
    k.family("vector pairs of mixed magnitude", pow(al.len(), 4), |i, x| {
        let mut d = Dec(i);
        let (u, v) = ((*d.of(&al), *d.of(&al)), (*d.of(&al), *d.of(&al)));
        x.note(|| format!("{:?} {:?}", u, v));
        pair(u, v, false, x)
    });
    let big = [(3e200, 4e200, 5e200), (3e-200, -4e-200, 5e-200), (-1e300, 0.0, 1e300), (0.0, 1e-310, 1e-310), (6e153, 8e153, 1e154), (-5e-160, 12e-160, 13e-160)];
    k.family("lengths that must not overflow", big.len() as u64 * 4, |i, x| {
        let mut d = Dec(i);
        let b = *d.of(&big);
        let s = if d.bit() { -1.0 } else { 1.0 };
        let v = if d.bit() { (b.1 * s, b.0) } else { (b.0 * s, b.1) };
        x.note(|| format!("{:?}", v));
        x.out("length");
        x.t(2);
        ensure!(close(mk(v).length(), b.2, 1e-15, 0.0), "length {:?} = {:e} not {:e}", v, mk(v).length(), b.2);
        ensure!(close(mk(v).distance(&mk((0.0, 0.0))), b.2, 1e-15, 0.0), "distance {:?} from 0 = {:e} not {:e}", v, mk(v).distance(&mk((0.0, 0.0))), b.2);
        Ok(())
    });
    // every power-of-two scale, both vectors and one of them
    let sc: Vec<i32> = (-1000..=1000).step_by(k.q(25, 1)).collect();
    k.family("vector pairs at every scale", pow(9, 2) * sc.len() as u64 * 3, |i, x| {
        let mut d = Dec(i);
        let (a, b) = (lat(d.take(9), 3, -1), lat(d.take(9), 3, -1));
        let (a, b) = ((a.0 * 3, a.1 * 4), (b.0 * 5, b.1));
        let s = 2f64.powi(*d.of(&sc));
        let (s, t) = match d.take(3) { 0 => (s, s), 1 => (s, 1.0), _ => (1.0, s) };
        x.note(|| format!("{:?} times {:e}, {:?} times {:e}", a, s, b, t));
        pair((a.0 as f64 * s, a.1 as f64 * s), (b.0 as f64 * t, b.1 as f64 * t), false, x)
    });
    let fac = [0.0, 1.0, -1.0, 0.3, -0.7, 3.0, -1.0 / 3.0, 1e5, 1e-6, 7.7];
    let r = k.q(7i64, 41);
    let wd = (2 * r + 1) as usize;
    k.family("decimal vectors", (16 * 16 * fac.len()) as u64 * pow(wd, 2), |i, x| {
        let mut d = Dec(i);
        let (a, b, f) = (*d.of(&DEC), *d.of(&DEC), *d.of(&fac));
        // a multiple of a vector, a sum, or another vector, and its neighbours in the last place
        let v = if a == b { (a.0 * f, a.1 * f) } else { (a.0 * f + b.0, a.1 * f + b.1) };
        let v = (ulp(v.0, d.take(wd) as i64 - r), ulp(v.1, d.take(wd) as i64 - r));
        x.note(|| format!("{:?} {:?}", a, v));
        pair(a, v, false, x)
    });
    // nearly parallel long vectors: sign of the determinant to the last unit
    let e = k.q(5i64, 10);
    let w = (2 * e + 1) as usize;
    let bs: Vec<I> = vec![(1 << 40, 1 << 41), ((1 << 40) - 7, (1 << 39) + 3), (3, 1 << 50), (-(1 << 30), 1 << 50), (1 << 52, 1)];
    k.family("nearly parallel vectors", bs.len() as u64 * 4 * pow(w, 4), |i, x| {
        let mut d = Dec(i);
        let b = *d.of(&bs);
        let s = *d.of(&[1i64, -1, 2, -2]);
        let mut p = || d.take(w) as i64 - e;
        let (u, v) = ((b.0 + p(), b.1 + p()), (s * b.0 + p(), s * b.1 + p()));
        let z = cross(u, v);
        if [u.0, u.1, v.0, v.1].iter().any(|c| c.abs() > 1 << 53) { return x.skip(); }
        x.note(|| format!("{:?} {:?} determinant {}", u, v, z));
        x.t(1);
        x.out(if z == 0 { "parallel" } else { "not parallel" });
        let g = mk((u.0 as f64, u.1 as f64)).is_parallel(&mk((v.0 as f64, v.1 as f64)));
        ensure!(g == (z == 0), "is_parallel {:?} {:?} = {} but determinant is {}", u, v, g, z);
        Ok(())
    });
    let n = k.q(11usize, 31);
    let o = -((n / 2) as i64);
    let qs: Vec<i32> = (-40..=40).chain((5..31).flat_map(|e| { let p = 1i32 << e; [p - 1, p, p + 1, p + 2, -p - 1, -p, -p + 1, 2 - p] })).chain([i32::MAX, i32::MAX - 1, i32::MAX - 2, i32::MAX - 3, i32::MIN, i32::MIN + 1, i32::MIN + 2, i32::MIN + 3]).collect();
    k.family("quarter turns", (n * n * qs.len()) as u64, |i, x| {
        let mut d = Dec(i);
        let a = lat(d.take(n * n), n, o);
        let q = *d.of(&qs);
        let v = (a.0 as f64, a.1 as f64);
        let w = match (q as i64).rem_euclid(4) { 0 => v, 1 => (-v.1, v.0), 2 => (-v.0, -v.1), _ => (v.1, -v.0) };
        x.t(1);
        x.out("quarter turn");
        x.note(|| format!("{:?} by {} quarters -> {:?}", v, q, w));
        match mk(v).rotate_by_quarter_circle(q) {
            None => Err(format!("rotating {:?} by {} quarters gives nothing", v, q)),
            Some(g) => { ensure!(is(&g, w), "rotating {:?} by {} quarters = {:?} not {:?}", v, q, sh(&g), w); Ok(()) }
        }
    });
    let st = k.q(120i64, 1440);
    k.family("rotations", (n * n) as u64 * (2 * st + 1) as u64, |i, x| {
        let mut d = Dec(i);
        let a = lat(d.take(n * n), n, o);
        let j = d.take((2 * st + 1) as usize) as i64 - st;
        let t = 2.0 * PI * j as f64 / st as f64;
        let v = (a.0 as f64, a.1 as f64);
        let g = mk(v).rotate(t);
        let (c, s) = (t.cos(), t.sin());
        let w = (v.0 * c - v.1 * s, v.0 * s + v.1 * c);
        x.t(2);
        x.out("rotation");
        x.note(|| format!("{:?} by {} -> {:?}", v, t, sh(&g)));
        let tol = 2e-15 * len2(v);
        ensure!((g.get_x() - w.0).abs() <= tol && (g.get_y() - w.1).abs() <= tol, "rotating {:?} by {} = {:?} not {:?}", v, t, sh(&g), w);
        ensure!((g.length() - len2(v)).abs() <= tol, "rotation changed the length of {:?}", v);
        for f in [0.0, 1.0, -2.0, 0.5, 3.0, 1e100] {
            let m = mk(v).multiply(f);
            ensure!(m.get_x() == v.0 * f && m.get_y() == v.1 * f, "{:?} times {} = {:?}", v, f, sh(&m));
            if f != 0.0 { let m = mk(v).divide(f); ensure!(close(m.get_x(), v.0 / f, 3e-16, 0.0) && close(m.get_y(), v.1 / f, 3e-16, 0.0), "{:?} over {} = {:?}", v, f, sh(&m)); }
            x.t(2);
        }
        Ok(())
    });
    k.family("default vector", 1, |_, x| {
        x.out("default");
        x.t(1);
        ensure!(is(&Vector2D::default(), (0.0, 0.0)), "default vector is not zero");
        Ok(())
    });
    // ---- space
    let n = k.q(5usize, 9);
    let c3 = n * n * n;
    let o = (n / 2) as f64;
    let p3 = move |q: usize| ((q % n) as f64 - o, (q / n % n) as f64 - o, (q / n / n) as f64 - o);
    k.family(&format!("vector pairs on {}x{}x{}", n, n, n), pow(c3, 2) * 4, |i, x| {
        let mut d = Dec(i);
        let (u, v) = (p3(d.take(c3)), p3(d.take(c3)));
        let sc = *d.of(&[1.0, 1048576.0, 9.5367431640625e-7, 3.0]);
        let (u, v) = ((u.0 * sc, u.1 * sc, u.2 * sc), (v.0 * sc, v.1 * sc, v.2 * sc));
        let co = |v: (f64, f64, f64)| Coordinate::new_xyz(v.0, v.1, v.2);
        let (a, b) = (Vector3D::new_from_xyz(u.0, u.1, u.2), Vector3D::create_from_xyz(v.0, v.1, v.2));
        x.note(|| format!("{:?} {:?}", u, v));
        x.out("space vectors");
        macro_rules! eq { ($n:expr, $g:expr, $w:expr) => { { let g = $g; let w: (f64, f64, f64) = $w; x.t(1); ensure!((g.get_x(), g.get_y(), g.get_z()) == w, "{} of {:?} {:?} = {:?} not {:?}", $n, u, v, (g.get_x(), g.get_y(), g.get_z()), w); } } }
        eq!("sum", a.add(&b), (u.0 + v.0, u.1 + v.1, u.2 + v.2));
        eq!("difference", a.subtract(&b), (u.0 - v.0, u.1 - v.1, u.2 - v.2));
        eq!("halving", a.divide(2.0), (u.0 / 2.0, u.1 / 2.0, u.2 / 2.0));
        eq!("from coordinate", Vector3D::new_from_coordinate(&co(u)), u);
        eq!("create from coordinate", Vector3D::create_from_coordinate(&co(v)), v);
        eq!("from XYZM coordinate", Vector3D::create_from_coordinate(&Coordinate::new_xyzm(v.0, v.1, v.2, 99.0)), v);
        eq!("from-to", Vector3D::new_from_to_coordinates(&co(u), &co(v)), (v.0 - u.0, v.1 - u.1, v.2 - u.2));
        let dt = u.0 * v.0 + u.1 * v.1 + u.2 * v.2;
        ensure!(a.dot(&b) == dt && b.dot(&a) == dt && Vector3D::dot_2(&co(u), &co(v)) == dt, "dot {:?} {:?} = {} {} not {}", u, v, a.dot(&b), Vector3D::dot_2(&co(u), &co(v)), dt);
        // dot product of two differences, every origin
        for p in [(0.0, 0.0, 0.0), u, v, (5.0, -7.0, 11.0)] { for q in [(0.0, 0.0, 0.0), v, (-3.0, 2.0, 13.0)] {
            let pu = co((p.0 + u.0, p.1 + u.1, p.2 + u.2));
            let qv = co((q.0 + v.0, q.1 + v.1, q.2 + v.2));
            let g = Vector3D::dot_4(&co(p), &pu, &co(q), &qv);
            x.t(1);
            ensure!((g - dt).abs() <= 1e-13 * (1.0 + sc * sc) * 100.0 / if sc >= 1.0 { 100.0 } else { 1.0 }, "dot of differences {:?} {:?} at {:?} {:?} = {} not {}", u, v, p, q, g, dt);
        } }
        let l = (u.0 * u.0 + u.1 * u.1 + u.2 * u.2).sqrt();
        ensure!(close(a.length(), l, 1e-15, 0.0) && close(Vector3D::length_of_coordinate(&co(u)), l, 1e-15, 0.0), "length {:?} = {} {} not {}", u, a.length(), Vector3D::length_of_coordinate(&co(u)), l);
        let g = a.normalize();
        let h = Vector3D::normalize_coordinate(&co(u));
        x.t(6);
        if l == 0.0 { ensure!(g.get_x() == 0.0 && g.get_y() == 0.0 && g.get_z() == 0.0, "normalised zero vector"); }
        else {
            let ok = |g: f64, w: f64| (g - w / l).abs() <= 1e-15;
            ensure!(ok(g.get_x(), u.0) && ok(g.get_y(), u.1) && ok(g.get_z(), u.2), "normalised {:?} = {:?}", u, (g.get_x(), g.get_y(), g.get_z()));
            ensure!(ok(h.x, u.0) && ok(h.y, u.1) && ok(h.get_z(), u.2), "normalised coordinate {:?} = {:?}", u, (h.x, h.y, h.get_z()));
        }
        ensure!(a.equals(&b) == (u == v), "equals {:?} {:?} = {}", u, v, a.equals(&b));
        ensure!((a.get_x(), a.get_y(), a.get_z()) == u && (b.get_x(), b.get_y(), b.get_z()) == v, "operands changed");
        Ok(())
    });
    // space vectors of every magnitude and mixed axes
    let sc: Vec<i32> = (-140..=140).step_by(k.q(7, 1)).collect();
    let base = [(2.0, 3.0, 6.0), (-1.0, 4.0, 8.0), (0.0, 0.0, -1.0), (0.0, 5.0, 0.0), (7.0, 0.0, 0.0), (1.0, -1.0, 1.0), (12.0, 15.0, -16.0)];
    k.family("space vectors at every scale", (base.len() * base.len() * sc.len()) as u64, |i, x| {
        let mut d = Dec(i);
        let (u, v) = (*d.of(&base), *d.of(&base));
        let s = 2f64.powi(*d.of(&sc));
        let f = |v: (f64, f64, f64)| (v.0 * s, v.1 * s, v.2 * s);
        let (p, q) = (f(u), f(v));
        let (a, b) = (Vector3D::new_from_xyz(p.0, p.1, p.2), Vector3D::new_from_xyz(q.0, q.1, q.2));
        let get = |v: &Vector3D| (v.get_x(), v.get_y(), v.get_z());
        x.note(|| format!("{:?} {:?} times {:e}", u, v, s));
        x.out("space vectors");
        x.t(9);
        ensure!(get(&a.add(&b)) == f((u.0 + v.0, u.1 + v.1, u.2 + v.2)), "sum of {:?} {:?} = {:?}", p, q, get(&a.add(&b)));
        ensure!(get(&a.subtract(&b)) == f((u.0 - v.0, u.1 - v.1, u.2 - v.2)), "difference of {:?} {:?} = {:?}", p, q, get(&a.subtract(&b)));
        let dt = (u.0 * v.0 + u.1 * v.1 + u.2 * v.2) * s * s;
        ensure!(a.dot(&b) == dt, "dot {:?} {:?} = {:e} not {:e}", p, q, a.dot(&b), dt);
        let c = |v: (f64, f64, f64)| Coordinate::new_xyz(v.0, v.1, v.2);
        ensure!(Vector3D::dot_2(&c(p), &c(q)) == dt, "dot {:?} {:?} = {:e} not {:e}", p, q, Vector3D::dot_2(&c(p), &c(q)), dt);
        let z = c((0.0, 0.0, 0.0));
        ensure!(Vector3D::dot_4(&z, &c(p), &z, &c(q)) == dt && Vector3D::dot_4(&c(p), &z, &z, &c(q)) == -dt, "dot of differences {:?} {:?} = {:e}", p, q, Vector3D::dot_4(&z, &c(p), &z, &c(q)));
        let l = (u.0 * u.0 + u.1 * u.1 + u.2 * u.2).sqrt() * s;
        ensure!(close(a.length(), l, 1e-15, 0.0) && close(Vector3D::length_of_coordinate(&c(p)), l, 1e-15, 0.0), "length {:?} = {:e} not {:e}", p, a.length(), l);
        let n = a.normalize();
        ensure!((n.get_x() - p.0 / l).abs() <= 1e-15 && (n.get_y() - p.1 / l).abs() <= 1e-15 && (n.get_z() - p.2 / l).abs() <= 1e-15, "normalised {:?} = {:?}", p, get(&n));
        let n = Vector3D::normalize_coordinate(&c(p));
        ensure!((n.x - p.0 / l).abs() <= 1e-15 && (n.y - p.1 / l).abs() <= 1e-15 && (n.z - p.2 / l).abs() <= 1e-15, "normalised {:?} = ({},{},{})", p, n.x, n.y, n.z);
        ensure!(get(&a.divide(4.0)) == (p.0 / 4.0, p.1 / 4.0, p.2 / 4.0), "quarter of {:?} = {:?}", p, get(&a.divide(4.0)));
        // equality in each component
        for k in 0..3 { for du in [-1i64, 1] {
            let mut w = [p.0, p.1, p.2];
            w[k] = ulp(w[k], du);
            ensure!(!a.equals(&Vector3D::new_from_xyz(w[0], w[1], w[2])), "{:?} equals {:?}", p, w);
        } }
        ensure!(a.equals(&Vector3D::new_from_xyz(p.0, p.1, p.2)), "{:?} does not equal itself", p);
        Ok(())
    });
    // ---- quadrants
    let al = [0.0, -0.0, 1.0, -1.0, f64::MIN_POSITIVE, -f64::MIN_POSITIVE, 5e-324, -5e-324, 1e300, -1e300, f64::INFINITY, f64::NEG_INFINITY, 2.5, -2.5];
    let quad = |dx: f64, dy: f64| if dx == 0.0 && dy == 0.0 { -1 } else if dx >= 0.0 { if dy >= 0.0 { 0 } else { 3 } } else if dy >= 0.0 { 1 } else { 2 };
    k.family("quadrants of directions", pow(al.len(), 2), |i, x| {
        let mut d = Dec(i);
        let (a, b) = (*d.of(&al), *d.of(&al));
        let w = quad(a, b);
        let g = Quadrant::quadrant_xy(a, b);
        x.t(2);
        x.out("quadrant");
        x.note(|| format!("({:e},{:e}) quadrant {}", a, b, g));
        ensure!(g == w, "quadrant of ({:e},{:e}) = {} not {}", a, b, g, w);
        let g = Quadrant::quadrant_coordinates(&Coordinate::new_xy(0.0, 0.0), &Coordinate::new_xy(a, b));
        ensure!(g == w, "quadrant of 0 -> ({:e},{:e}) = {} not {}", a, b, g, w);
        Ok(())
    });
    let al = [0.0, -0.0, 1.0, ulp(1.0, 1), -1.0, ulp(-1.0, -1), 1e300, -1e300, 1e-300, 7.0, 1e16];
    k.family("quadrants of point pairs", pow(al.len(), 4), |i, x| {
        let mut d = Dec(i);
        let (a, b, p, q) = (*d.of(&al), *d.of(&al), *d.of(&al), *d.of(&al));
        let s = |u: f64, v: f64| if v > u { 1.0 } else if v < u { -1.0 } else { 0.0 };
        let w = quad(s(a, p), s(b, q));
        x.t(1);
        x.out("quadrant");
        let g = Quadrant::quadrant_coordinates(&Coordinate::new_xy(a, b), &Coordinate::new_xy(p, q));
        ensure!(g == w, "quadrant of ({:e},{:e}) -> ({:e},{:e}) = {} not {}", a, b, p, q, g, w);
        Ok(())
    });
    k.family("quadrant relations", 4 * 4 * 4, |i, x| {
        let mut d = Dec(i);
        let (a, b, c) = (d.take(4) as i32, d.take(4) as i32, d.take(4) as i32);
        let opp = (a - b).rem_euclid(4) == 2;
        let inh = |q: i32, h: i32| q == h || q == (h + 1) % 4;
        x.t(4);
        x.out("quadrant relation");
        x.note(|| format!("{} {} {}", a, b, c));
        ensure!(Quadrant::is_opposite(a, b) == opp, "is_opposite {} {} = {}", a, b, !opp);
        let h = Quadrant::common_half_plane(a, b);
        if opp { ensure!(h == -1, "opposite quadrants {} {} have common half plane {}", a, b, h); }
        else {
            ensure!((0..4).contains(&h) && inh(a, h) && inh(b, h), "common half plane of {} {} = {}", a, b, h);
            ensure!(Quadrant::is_in_half_plane(a, h) && Quadrant::is_in_half_plane(b, h), "quadrants {} {} are not in their common half plane {}", a, b, h);
        }
        ensure!(Quadrant::is_in_half_plane(a, b) == inh(a, b), "quadrant {} in half plane {} = {}", a, b, !inh(a, b));
        ensure!(Quadrant::is_northern(a) == (a < 2), "is_northern({})", a);
        ensure!((Quadrant::NE, Quadrant::NW, Quadrant::SW, Quadrant::SE) == (0, 1, 2, 3), "quadrant numbering");
        let _ = c;
        Ok(())
    });
    k.family("positions", 3, |i, x| {
        x.t(2);
        x.out("position");
        let p = [Position::ON, Position::LEFT, Position::RIGHT][i as usize];
        let w = [Position::ON, Position::RIGHT, Position::LEFT][i as usize];
        ensure!(Position::opposite(p) == w && Position::opposite(w) == p, "opposite of position {} = {}", p, Position::opposite(p));
        ensure!((Position::ON, Position::LEFT, Position::RIGHT) == (0, 1, 2), "position numbering");
        Ok(())
    });
    k.finish()
}
