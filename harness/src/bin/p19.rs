// P19 Angles: ranges, orientation, classification
use geos_rs::verif::*;
use geosmc::{ensure, exact::Dy, geo::*, mc::*, num::*};
use std::f64::consts::PI;

/// positions: where the lattice sits and how it is scaled
const MAPS: [(i64, i64, f64); 6] = [(0, 0, 1.0), (-1000003, 500009, 1.0), (1 << 44, -(1 << 44), 1.0), (3, -5, 9.5367431640625e-7), (1, 2, 1.6069380442589903e60), (-7, 11, 0.125)];
fn c(p: I, m: &(i64, i64, f64)) -> Coordinate { Coordinate::new_xy((p.0 + m.0) as f64 * m.2, (p.1 + m.1) as f64 * m.2) }
const T: f64 = 3e-15;
/// a and b denote the same direction
fn same_dir(a: f64, b: f64, tol: f64) -> bool { let d = (a - b).abs() % (2.0 * PI); d <= tol || 2.0 * PI - d <= tol }

/// signed turn from u to v in (-pi, pi]; exact opposite gives pi
fn turn(u: I, v: I) -> f64 { (cross(u, v) as f64).atan2(dot(u, v) as f64) }

/// exact values known for multiples of 45 degrees
fn octant(v: I) -> Option<f64> {
    let q = PI / 4.0;
    match (v.0.signum(), v.1.signum()) {
        (1, 0) => Some(0.0), (0, 1) => Some(2.0 * q), (-1, 0) => Some(PI), (0, -1) => Some(-2.0 * q),
        (1, 1) if v.0 == v.1 => Some(q), (-1, 1) if -v.0 == v.1 => Some(3.0 * q), (-1, -1) if v.0 == v.1 => Some(-3.0 * q), (1, -1) if v.0 == -v.1 => Some(-q), _ => None,
    }
}

fn triple(a: I, t: I, b: I, m: &(i64, i64, f64), x: &mut Ctx) -> Res {
    let (p, q, r) = (c(a, m), c(t, m), c(b, m));
    let (u, v) = (sub(a, t), sub(b, t));
    let d = dot(u, v);
    let ac = Angle::is_acute(&p, &q, &r);
    let ob = Angle::is_obtuse(&p, &q, &r);
    x.t(2);
    ensure!(ac == (d > 0) && ob == (d < 0), "angle {:?} at {:?} to {:?} map {:?}: acute {} obtuse {} but dot product is {}", a, t, b, m, ac, ob, d);
    if u == (0, 0) || v == (0, 0) { x.out("no direction"); return Ok(()); }
    let w = turn(u, v);
    let g = Angle::angle_between(&p, &q, &r);
    ensure!((0.0..=PI + T).contains(&g) && (g - w.abs()).abs() <= T, "angle between {:?} {:?} {:?} map {:?} = {} not {}", a, t, b, m, g, w.abs());
    let g = Angle::angle_between_oriented(&p, &q, &r);
    ensure!(g > -PI && g <= PI && same_dir(g, w, T), "oriented angle {:?} {:?} {:?} map {:?} = {} not {}", a, t, b, m, g, w);
    if cross(u, v) != 0 { ensure!((g > 0.0) == (cross(u, v) > 0), "oriented angle {:?} {:?} {:?} = {} has the wrong sign", a, t, b, g); x.out("turn"); }
    else { x.out(if d > 0 { "same direction" } else { "opposite" }); }
    let g = Angle::interior_angle(&p, &q, &r);
    ensure!((0.0..2.0 * PI).contains(&g) && same_dir(g, w, T), "interior angle {:?} {:?} {:?} map {:?} = {} not {}", a, t, b, m, g, w);
    let g = Angle::bisector(&p, &q, &r);
    ensure!(g > -PI && g <= PI, "bisector {:?} {:?} {:?} = {} out of range", a, t, b, g);
    // the bisector makes the same angle, at most a quarter turn, with both sides
    let (da, db) = ((u.1 as f64).atan2(u.0 as f64), (v.1 as f64).atan2(v.0 as f64));
    let h = w.abs() / 2.0;
    let (ga, gb) = (Angle::diff(g, da), Angle::diff(g, db));
    ensure!((ga - h).abs() <= 2.0 * T && (gb - h).abs() <= 2.0 * T, "bisector {:?} {:?} {:?} map {:?} = {} at {} and {} from the sides not {}", a, t, b, m, g, ga, gb, h);
    x.t(6);
    let g = Angle::angle_coordinates(&q, &p);
    ensure!(g >= -PI && g <= PI && (g - da).abs() <= T, "angle {:?}->{:?} map {:?} = {} not {}", t, a, m, g, da);
    if let Some(e) = octant(u) { ensure!(g == e, "angle {:?}->{:?} = {:e} not {:e}", t, a, g, e); }
    let s = Angle::get_turn(da, db);
    let want = if cross(u, v) == 0 { if d > 0 { Some(0) } else { None } } else { Some(cross(u, v).signum() as i32) };
    if let Some(want) = want { ensure!(s == want, "turn from {:?} to {:?} = {} not {}", u, v, s, want); }
    Ok(())
}

/// the same for points off the lattice, where differences and products are rounded
fn decimal(s: [P; 3], x: &mut Ctx) -> Res {
    let [p, q, r] = s.map(|v| Coordinate::new_xy(v.0, v.1));
    x.note(|| format!("{:?}", s));
    let d = |a: f64, b: f64| Dy::new(a).sub(&Dy::new(b));
    let (ux, uy, vx, vy) = (d(p.x, q.x), d(p.y, q.y), d(r.x, q.x), d(r.y, q.y));
    let (k, l) = (ux.mul(&vx), uy.mul(&vy));
    let dt = k.add(&l);
    // claimed where rounding cannot hide the sign
    if dt.abs().f64() > 8.0 * f64::EPSILON * k.abs().add(&l.abs()).f64() {
        let (ac, ob) = (Angle::is_acute(&p, &q, &r), Angle::is_obtuse(&p, &q, &r));
        x.t(2);
        ensure!(ac == (dt.sign() > 0) && ob == (dt.sign() < 0), "angle {:?}: acute {} obtuse {} but dot product is {:e}", s, ac, ob, dt.f64());
    }
    if s[0] == s[1] || s[2] == s[1] { return Ok(()); }
    let cr = ux.mul(&vy).sub(&uy.mul(&vx));
    let w = cr.f64().atan2(dt.f64());
    x.out(if w.abs() < 1e-9 { "decimal: all but aligned" } else if PI - w.abs() < 1e-9 { "decimal: all but opposite" } else { "decimal: turn" });
    let t = 2.0 * T;
    let g = Angle::angle_between(&p, &q, &r);
    ensure!((0.0..=PI + T).contains(&g) && (g - w.abs()).abs() <= t, "angle between {:?} = {} not {}", s, g, w.abs());
    let g = Angle::angle_between_oriented(&p, &q, &r);
    ensure!(g > -PI && g <= PI && same_dir(g, w, t), "oriented angle {:?} = {} not {}", s, g, w);
    let g = Angle::interior_angle(&p, &q, &r);
    ensure!((0.0..2.0 * PI).contains(&g) && same_dir(g, w, t), "interior angle {:?} = {} not {}", s, g, w);
    let (da, db) = (uy.f64().atan2(ux.f64()), vy.f64().atan2(vx.f64()));
    let g = Angle::bisector(&p, &q, &r);
    let h = w.abs() / 2.0;
    let (ga, gb) = (Angle::diff(g, da), Angle::diff(g, db));
    ensure!(g > -PI && g <= PI && (ga - h).abs() <= t && (gb - h).abs() <= t, "bisector {:?} = {} at {} and {} from the sides not {}", s, g, ga, gb, h);
    let g = Angle::angle_coordinates(&q, &p);
    ensure!(g >= -PI && g <= PI && (g - da).abs() <= T, "angle {:?}->{:?} = {} not {}", s[1], s[0], g, da);
    let g = Angle::angle_coordinate(&p);
    ensure!((g - p.y.atan2(p.x)).abs() <= T, "angle of {:?} = {}", s[0], g);
    let g = Angle::diff(da, db);
    ensure!((g - w.abs()).abs() <= t, "difference of the angles {:?} = {} not {}", s, g, w.abs());
    let g = Angle::get_turn(da, db);
    if w.abs() > 2.0 * t && PI - w.abs() > 2.0 * t { ensure!(g == w.signum() as i32, "turn at {:?} = {}", s, g); }
    x.t(8);
    Ok(())
}

fn main() {
    let mut k = Check::new("P19");
    let n = k.q(9usize, 17);
    k.family(&format!("all triples on {}x{}", n, n), pow(n * n, 3), |i, x| {
        let mut d = Dec(i);
        let (a, t, b) = (lat(d.take(n * n), n, 0), lat(d.take(n * n), n, 0), lat(d.take(n * n), n, 0));
        x.note(|| format!("{:?} {:?} {:?}", a, t, b));
        triple(a, t, b, &MAPS[0], x)
    });
    k.family("triples of decimal points", pow(16, 3), |i, x| {
        let mut d = Dec(i);
        decimal([0; 3].map(|_| DEC[d.take(16)]), x)
    });
    let dir: Vec<P> = vec![(1.0 / 3.0, 0.7), (-0.9, 0.1), (1e-3, 1.0 / 7.0), (55.5, -33.3), (-0.1, -0.2)];
    let fac = [-2.1, -1.0, -0.3, 0.4, 1.0, 3.3];
    let tilt = [0.0, 1e-15, -1e-12, 1e-9, -1e-6, 0.001, -0.1, 0.7, 1.0, -1.0, 33.3, 1e6, -1e9];
    let u = k.q(3i64, 9);
    let wd = (2 * u + 1) as usize;
    k.family("nearly aligned decimal points", (DEC.len() * dir.len() * fac.len() * tilt.len() * 2) as u64 * pow(wd, 2), |i, x| {
        let mut d = Dec(i);
        let (b, v, f, g) = (*d.of(&DEC), *d.of(&dir), *d.of(&fac), *d.of(&tilt));
        let swap = d.bit();
        let mut o = || d.take(wd) as i64 - u;
        let a = (b.0 + v.0, b.1 + v.1);
        let r = (ulp(b.0 + v.0 * f - v.1 * f * g, o()), ulp(b.1 + v.1 * f + v.0 * f * g, o()));
        decimal(if swap { [r, b, a] } else { [a, b, r] }, x)
    });
    let n = k.q(6usize, 8);
    k.family("triples under offset and scale", pow(n * n, 3) * (MAPS.len() as u64 - 1), |i, x| {
        let mut d = Dec(i);
        let m = MAPS[1 + d.take(MAPS.len() - 1)];
        let (a, t, b) = (lat(d.take(n * n), n, 0), lat(d.take(n * n), n, 0), lat(d.take(n * n), n, 0));
        x.note(|| format!("{:?} {:?} {:?} map {:?}", a, t, b, m));
        triple(a, t, b, &m, x)
    });
    // every power-of-two scale, every power-of-two offset
    let mut every: Vec<(i64, i64, f64)> = (-480..=480).step_by(k.q(8, 1)).map(|e| (0, 0, 2f64.powi(e))).collect();
    for e in (0..=49).step_by(k.q(3, 1)) { let o = 1i64 << e; every.extend([(o, 0, 1.0), (3, -o, 2f64.powi(-30)), (-o + 1, o - 3, 1.0)]); }
    k.family("triples at every scale and offset", pow(9, 3) * every.len() as u64, |i, x| {
        let mut d = Dec(i);
        let (a, t, b) = (lat(d.take(9), 3, -1), lat(d.take(9), 3, -1), lat(d.take(9), 3, -1));
        let m = *d.of(&every);
        x.note(|| format!("{:?} {:?} {:?} map {:?}", a, t, b, m));
        triple(a, t, b, &m, x)
    });
    // long, nearly aligned, nearly opposite and nearly perpendicular directions
    let e = k.q(6i64, 9);
    let base: Vec<I> = vec![(1 << 25, 0), (0, 1 << 25), (-(1 << 25), 0), (0, -(1 << 25)), (1 << 24, 1 << 24), (-(1 << 24), 1 << 24), (12345678, -7654321), (7654321, 12345678)];
    let w = (2 * e + 1) as usize;
    k.family("nearly aligned long directions", (base.len() * base.len()) as u64 * pow(w, 4), |i, x| {
        let mut d = Dec(i);
        let (u, v) = (*d.of(&base), *d.of(&base));
        let mut p = || d.take(w) as i64 - e;
        let (a, b) = ((u.0 + p(), u.1 + p()), (v.0 + p(), v.1 + p()));
        x.note(|| format!("{:?} {:?}", a, b));
        let (p, q, r) = (c(a, &MAPS[0]), c((0, 0), &MAPS[0]), c(b, &MAPS[0]));
        let dp = dot(a, b);
        let (ac, ob) = (Angle::is_acute(&p, &q, &r), Angle::is_obtuse(&p, &q, &r));
        x.t(4);
        ensure!(ac == (dp > 0) && ob == (dp < 0), "angle {:?} to {:?}: acute {} obtuse {} but dot product {}", a, b, ac, ob, dp);
        let t = turn(a, b);
        let g = Angle::angle_between_oriented(&p, &q, &r);
        ensure!(g > -PI && g <= PI && same_dir(g, t, T), "oriented angle {:?} {:?} = {} not {}", a, b, g, t);
        let g = Angle::angle_between(&p, &q, &r);
        ensure!((g - t.abs()).abs() <= T, "angle between {:?} {:?} = {} not {}", a, b, g, t);
        let g = Angle::interior_angle(&p, &q, &r);
        ensure!((0.0..2.0 * PI).contains(&g) && same_dir(g, t, T), "interior angle {:?} {:?} = {} not {}", a, b, g, t);
        x.out("long");
        Ok(())
    });
    // direction of a single vector, signed zeros included
    let al = [0.0, -0.0, 1.0, -1.0, 2.0, -2.0, 1e-300, -1e-300, 1e300, -1e300, f64::MIN_POSITIVE, 3.0, -3.0, 0.5];
    k.family("directions from the origin", pow(al.len(), 2), |i, x| {
        let mut d = Dec(i);
        let (a, b) = (*d.of(&al), *d.of(&al));
        let g = Angle::angle_coordinate(&Coordinate::new_xy(a, b));
        let w = b.atan2(a);
        x.t(2);
        x.out("direction");
        x.note(|| format!("({:e},{:e}) angle {}", a, b, g));
        ensure!((g - w).abs() <= T && (-PI..=PI).contains(&g), "angle of ({:e},{:e}) = {} not {}", a, b, g, w);
        // from the origin: the direction is that of the coordinate
        let h = Angle::angle_coordinates(&Coordinate::new_xy(0.0, 0.0), &Coordinate::new_xy(a, b));
        ensure!(same_dir(g, h, T) || (a == 0.0 && b == 0.0), "angle of ({:e},{:e}) from the origin = {} not {}", a, b, h, g);
        Ok(())
    });
    // normalisation of every multiple of a small angle over many turns, with neighbouring doubles
    let (tn, st) = k.q((100i64, 72i64), (400, 240));
    let cnt = (2 * tn * st + 1) as u64;
    k.family("normalising multiples of a small angle", cnt * 9, |i, x| {
        let mut d = Dec(i);
        let u = d.take(9) as i64 - 4;
        let j = d.take(cnt as usize) as i64 - tn * st;
        let a = ulp(PI * 2.0 * j as f64 / st as f64, u);
        x.note(|| format!("{} (multiple {} of a turn/{}, {} ulps)", a, j, st, u));
        let tol = a.abs() * 3e-16 * (2.0 + a.abs() / 6.0) + T;
        let f = (j.rem_euclid(st)) as f64 * 2.0 * PI / st as f64;
        let g = Angle::normalize(a);
        let h = Angle::normalize_positive(a);
        x.t(2);
        x.out(if j % st == 0 { "whole turns" } else if 2 * j % st == 0 { "half turns" } else { "other" });
        ensure!(g > -PI && g <= PI, "normalize({:e}) = {:e} not in (-pi,pi]", a, g);
        ensure!((0.0..2.0 * PI).contains(&h), "normalize_positive({:e}) = {:e} not in [0,2pi)", a, h);
        ensure!(same_dir(g, f, tol), "normalize({:e}) = {:e} not {:e}", a, g, f);
        ensure!(same_dir(h, f, tol), "normalize_positive({:e}) = {:e} not {:e}", a, h, f);
        // idempotent; angles already in range come back as they are
        ensure!(Angle::normalize(g) == g, "normalize is not idempotent at {:e}", g);
        ensure!(Angle::normalize_positive(h) == h, "normalize_positive is not idempotent at {:e}", h);
        if a > -PI && a <= PI { ensure!(g == a, "normalize moved {:e} to {:e}", a, g); }
        if (0.0..2.0 * PI).contains(&a) { ensure!(h == a, "normalize_positive moved {:e} to {:e}", a, h); }
        x.t(4);
        // degrees and radians
        let deg = Angle::to_degrees(a);
        ensure!(close(deg, a / PI * 180.0, 2e-15, 1e-290), "to_degrees({:e}) = {:e}", a, deg);
        ensure!(close(Angle::to_radians(deg), a, 2e-15, 1e-290), "to_radians(to_degrees({:e})) = {:e}", a, Angle::to_radians(deg));
        let dg = 360.0 * j as f64 / st as f64;
        ensure!(close(Angle::to_degrees(Angle::to_radians(dg)), dg, 2e-15, 1e-290), "to_degrees(to_radians({}))", dg);
        ensure!(close(Angle::to_radians(dg), 2.0 * PI * j as f64 / st as f64, 2e-15, 1e-290), "to_radians({}) = {}", dg, Angle::to_radians(dg));
        x.t(4);
        Ok(())
    });
    // angles and slopes of every magnitude keep their relative accuracy
    let ex: Vec<i32> = (-990..=990).step_by(k.q(3, 1)).collect();
    let man = [1.0, 1.25, 1.0 / 0.7, 1.9999999999999998];
    k.family("angles of every magnitude", (ex.len() * man.len() * 2) as u64, |i, x| {
        let mut d = Dec(i);
        let v = *d.of(&man) * 2f64.powi(*d.of(&ex)) * if d.bit() { -1.0 } else { 1.0 };
        x.note(|| format!("{:e}", v));
        let r = 4e-15;
        ensure!(close(Angle::to_degrees(v), v * (180.0 / PI), r, 0.0), "to_degrees({:e}) = {:e}", v, Angle::to_degrees(v));
        ensure!(close(Angle::to_radians(v), v * (PI / 180.0), r, 0.0), "to_radians({:e}) = {:e}", v, Angle::to_radians(v));
        x.t(2);
        let w = v.atan();
        let (o, e, f) = (Coordinate::new_xy(0.0, 0.0), Coordinate::new_xy(1.0, 0.0), Coordinate::new_xy(1.0, v));
        for (n, g, w) in [("angle", Angle::angle_coordinate(&f), w), ("angle of two points", Angle::angle_coordinates(&o, &f), w), ("angle between", Angle::angle_between(&e, &o, &f), w.abs()),
            ("angle between", Angle::angle_between(&f, &o, &e), w.abs()), ("oriented angle", Angle::angle_between_oriented(&e, &o, &f), w), ("oriented angle", Angle::angle_between_oriented(&f, &o, &e), -w),
            ("bisector", Angle::bisector(&e, &o, &f), w / 2.0), ("difference", Angle::diff(0.0, w), w.abs()), ("difference", Angle::diff(w, 0.0), w.abs()), ("difference", Angle::diff(w, -w), 2.0 * w.abs())] {
            ensure!(close(g, w, r, 0.0), "{} for the slope {:e} is {:e} not {:e}", n, v, g, w);
        }
        let g = if v > 0.0 { Angle::interior_angle(&e, &o, &f) } else { Angle::interior_angle(&f, &o, &e) };
        ensure!(close(g, w.abs(), r, 0.0), "interior angle for the slope {:e} is {:e} not {:e}", v, g, w.abs());
        ensure!(Angle::get_turn(0.0, w) == v.signum() as i32 && Angle::get_turn(w, 0.0) == -(v.signum() as i32), "turn by {:e}", w);
        x.t(12);
        x.out(if v.abs() < 1e-9 { "tiny" } else if v.abs() > 1e9 { "huge" } else { "ordinary" });
        Ok(())
    });
    // sine and cosine snapping, projection
    let st = k.q(120i64, 720);
    k.family("snapped sine and cosine and projection", (4 * st + 1) as u64 * 7 * 6 * 5, |i, x| {
        let mut d = Dec(i);
        let u = *d.of(&[0i64, 1, -1, 2, -2, 1 << 30, -(1 << 30)]);
        let j = d.take((4 * st + 1) as usize) as i64 - 2 * st;
        let a = ulp(if 4 * j % st == 0 { PI / 2.0 * (4 * j / st) as f64 } else { 2.0 * PI * j as f64 / st as f64 }, u);
        let (s, co) = (a.sin(), a.cos());
        let (gs, gc) = (Angle::sin_snap(a), Angle::cos_snap(a));
        x.t(3);
        x.note(|| format!("{} sine {} cosine {}", a, gs, gc));
        ensure!((gs - s).abs() <= 5e-16 && (gc - co).abs() <= 5e-16, "snapped sine/cosine of {:e} = {:e} {:e} not {:e} {:e}", a, gs, gc, s, co);
        ensure!((gs == 0.0 || gs.abs() > 4.9e-16) && (gc == 0.0 || gc.abs() > 4.9e-16), "sine or cosine of {:e} not snapped: {:e} {:e}", a, gs, gc);
        if s.abs() > 5.1e-16 { ensure!(gs != 0.0, "sine of {:e} snapped away", a); }
        if co.abs() > 5.1e-16 { ensure!(gc != 0.0, "cosine of {:e} snapped away", a); }
        let quarter = u == 0 && 4 * j % st == 0 && j.abs() <= st;
        let q = (4 * j / st).rem_euclid(4);
        if quarter {
            x.out("quarter turn");
            let e = [(0.0, 1.0), (1.0, 0.0), (0.0, -1.0), (-1.0, 0.0)][q as usize];
            ensure!((gs, gc) == e, "snapped sine and cosine of {} quarters = {:?} not {:?}", q, (gs, gc), e);
        } else { x.out("other angle"); }
        let p = *d.of(&[(0.0, 0.0), (1.0, -2.0), (1e6, 3e5), (-0.125, 7.5), (1e-9, -1e9)]);
        let r = *d.of(&[0.0, 1.0, -1.0, 2.5, 1e6, 1e-7]);
        let g = Angle::project(&Coordinate::new_xy(p.0, p.1), a, r);
        let (wx, wy) = (p.0 + r * co, p.1 + r * s);
        let tol = 4e-16 * (p.0.abs() + p.1.abs()) + r.abs() * 1e-15;
        ensure!((g.x - wx).abs() <= tol && (g.y - wy).abs() <= tol, "project {:?} by {} at {} = ({:e},{:e}) not ({:e},{:e})", p, r, a, g.x, g.y, wx, wy);
        if quarter { if q % 2 == 0 { ensure!(g.y == p.1, "projecting {:?} along x by {} moved y to {}", p, r, g.y); } else { ensure!(g.x == p.0, "projecting {:?} along y by {} moved x to {}", p, r, g.x); } }
        Ok(())
    });
    // the snapping threshold: angles at every small distance from the quarter turns
    let small: Vec<f64> = (1..=k.q(400, 4000)).map(|j| j as f64 * 5e-18).chain((1..=1074).map(|e| 2f64.powi(-e))).chain([0.0]).collect();
    k.family("angles near quarter turns", small.len() as u64 * 2 * 9, |i, x| {
        let mut d = Dec(i);
        let e = *d.of(&small) * if d.bit() { -1.0 } else { 1.0 };
        let q = d.take(9) as i64 - 4;
        let a = PI / 2.0 * q as f64 + e;
        let (s, c) = (a.sin(), a.cos());
        let (gs, gc) = (Angle::sin_snap(a), Angle::cos_snap(a));
        x.t(2);
        x.out(if gs == 0.0 || gc == 0.0 { "snapped" } else { "not snapped" });
        x.note(|| format!("{} quarters and {:e}: sine {:e} cosine {:e}", q, e, gs, gc));
        for (n, g, w) in [("sine", gs, s), ("cosine", gc, c)] {
            ensure!((g - w).abs() <= 5e-16, "snapped {} of {:e} = {:e} not {:e}", n, a, g, w);
            ensure!(g == 0.0 || g.abs() > 4.9e-16, "{} of {:e} not snapped: {:e}", n, a, g);
            ensure!(w.abs() <= 5.1e-16 || g != 0.0, "{} of {:e} snapped away", n, a);
        }
        Ok(())
    });
    // normalisation around the ends of its ranges, bit by bit
    let r = k.q(150i64, 3000);
    k.family("angles around half and whole turns", (2 * r + 1) as u64 * 33, |i, x| {
        let mut d = Dec(i);
        let u = d.take((2 * r + 1) as usize) as i64 - r;
        let h = d.take(33) as i64 - 16;
        let a = ulp(PI * h as f64, u);
        let (g, p) = (Angle::normalize(a), Angle::normalize_positive(a));
        x.t(2);
        x.out("near the end of a range");
        let tol = T + a.abs() * 1e-15;
        x.note(|| format!("{:e} -> {:e} {:e}", a, g, p));
        ensure!(g > -PI && g <= PI && same_dir(g, a, tol), "normalize({:e}) = {:e}", a, g);
        ensure!((0.0..2.0 * PI).contains(&p) && same_dir(p, a, tol), "normalize_positive({:e}) = {:e}", a, p);
        if a > -PI && a <= PI { ensure!(g == a, "normalize moved {:e} to {:e}", a, g); }
        if (0.0..2.0 * PI).contains(&a) { ensure!(p == a, "normalize_positive moved {:e} to {:e}", a, p); }
        Ok(())
    });
    // differences and turns of all pairs of normalised angles
    let st = k.q(240i64, 720);
    k.family("angle pairs", pow((st + 1) as usize, 2) * 9, |i, x| {
        let mut d = Dec(i);
        let ja = d.take((st + 1) as usize) as i64 - st / 2;
        let jb = d.take((st + 1) as usize) as i64 - st / 2;
        let (ua, ub) = (d.take(3) as i64 - 1, d.take(3) as i64 - 1);
        let cl = |v: f64| v.clamp(-PI, PI);
        let (a, b) = (cl(ulp(2.0 * PI * ja as f64 / st as f64, ua)), cl(ulp(2.0 * PI * jb as f64 / st as f64, ub)));
        x.note(|| format!("{} {}", a, b));
        let m = (jb - ja).rem_euclid(st);
        let w = m.min(st - m) as f64 * 2.0 * PI / st as f64;
        let g = Angle::diff(a, b);
        ensure!((0.0..=PI).contains(&g) && (g - w).abs() <= T, "diff({},{}) = {} not {}", a, b, g, w);
        ensure!(g == Angle::diff(b, a), "diff({},{}) is not symmetric", a, b);
        let t = Angle::get_turn(a, b);
        x.t(3);
        if m != 0 && 2 * m != st {
            let w = if 2 * m < st { 1 } else { -1 };
            x.out("turn");
            ensure!(t == w, "turn from {} to {} = {} not {}", a, b, t, w);
        } else if a == b { x.out("equal"); ensure!(t == 0, "turn from {} to itself = {}", a, t); }
        else { x.out("indistinct"); }
        ensure!(Angle::get_turn(b, a) == -t, "turn {} {} not antisymmetric", a, b);
        Ok(())
    });
    k.family("constants", 1, |_, x| {
        x.t(6);
        x.out("constant");
        ensure!(Angle::PI_TIMES_2 == 2.0 * PI && Angle::PI_OVER_2 == PI / 2.0 && Angle::PI_OVER_4 == PI / 4.0, "angle constants");
        ensure!(Angle::COUNTERCLOCKWISE == Orientation::COUNTERCLOCKWISE && Angle::CLOCKWISE == Orientation::CLOCKWISE && Angle::NONE == Orientation::COLLINEAR, "turn constants");
        ensure!(Orientation::COUNTERCLOCKWISE == 1 && Orientation::CLOCKWISE == -1 && Orientation::COLLINEAR == 0, "orientation constants");
        Ok(())
    });
    k.finish()
}
