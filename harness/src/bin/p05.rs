// P05 2D distances are true minimum distances
use geos_rs::verif::*;
use geosmc::{ensure, exact::*, geo::*, mc::*, num::ulp};

#[derive(Clone, Copy)]
struct Map { ox: i64, oy: i64, s: f64 }
impl Map {
    fn c(&self, p: I) -> Coordinate { Coordinate::new_xy((p.0 + self.ox) as f64 * self.s, (p.1 + self.oy) as f64 * self.s) }
}
const ID: Map = Map { ox: 0, oy: 0, s: 1.0 };
fn maps() -> Vec<Map> {
    vec![ID, Map { ox: -1000003, oy: 5, s: 1.0 }, Map { ox: (1 << 40) + 1, oy: -(1 << 39), s: 0.5 }, Map { ox: 1 << 51, oy: 1 << 51, s: 1.0 },
        Map { ox: 0, oy: 0, s: 2f64.powi(-100) }, Map { ox: 0, oy: 0, s: 2f64.powi(100) }, Map { ox: 3, oy: 3, s: -8.0 }]
}
/// squared distance as fraction against a computed distance: relative error, plus ext for cancellation
fn ok(g: f64, t: (i128, i128), s: f64, ext: f64) -> bool {
    let w = q(t.0, t.1).sqrt() * s.abs();
    if t.0 == 0 { return g.abs() <= ext * 1e-15; }
    (g - w).abs() <= 1e-13 * w + 4.0 * f64::EPSILON * ext
}

fn ext(s: &[P]) -> f64 {
    let mut e = 0.0f64;
    for a in s { for b in s { e = e.max((a.0 - b.0).abs()).max((a.1 - b.1).abs()); } }
    e
}
/// segments and points off the lattice, where differences and products are rounded
fn decimal(s: [P; 4], x: &mut Ctx) -> Res {
    let p = s.map(|v| Coordinate::new_xy(v.0, v.1));
    let eps = f64::EPSILON;
    x.note(|| format!("{:?}", s));
    let meet = segs_share(s);
    let w = if meet { Rat::of(0.0) } else { [d2(s[0], s[2], s[3]), d2(s[1], s[2], s[3]), d2(s[2], s[0], s[1]), d2(s[3], s[0], s[1])].into_iter().min().unwrap() };
    let w = w.f64().sqrt();
    let e = ext(&s);
    let len = |a: P, b: P| { let l = (a.0 - b.0).hypot(a.1 - b.1); if l == 0.0 { f64::INFINITY } else { l } };
    let sh = len(s[0], s[1]).min(len(s[2], s[3]));
    let tol = 16.0 * eps * (w + e * if sh.is_finite() { (e / sh).max(1.0) } else { 1.0 });
    x.out(if meet { "decimal touching" } else if w < tol { "decimal all but touching" } else { "decimal apart" });
    for r in [[0, 1, 2, 3], [1, 0, 2, 3], [2, 3, 0, 1], [3, 2, 0, 1]] {
        let g = Distance::segment_to_segment(&p[r[0]], &p[r[1]], &p[r[2]], &p[r[3]]);
        ensure!((g - w).abs() <= tol, "segment_to_segment {:?} in order {:?} = {:e} but the distance is {:e}", s, r, g, w);
    }
    let g = LineSegment::new_from_coordinates(&p[0], &p[1]).distance_line_segment(&LineSegment::new_from_coordinates(&p[2], &p[3]));
    ensure!((g - w).abs() <= tol, "LineSegment::distance {:?} = {:e} but the distance is {:e}", s, g, w);
    x.t(5);
    // the point p0 against the segment p2 p3 and the line p0 p2 p3
    let (o, a, b) = (&p[0], &p[2], &p[3]);
    let ls = LineSegment::new_from_coordinates(a, b);
    let e = ext(&[s[0], s[2], s[3]]);
    let w = d2(s[0], s[2], s[3]).f64().sqrt();
    for (nm, g) in [("point_to_segment", Distance::point_to_segment(o, a, b)), ("LineSegment::distance(point)", ls.distance_coordinate(o))] {
        ensure!((g - w).abs() <= 16.0 * eps * (w + e), "{} {:?} {:?} {:?} = {:e} but the distance is {:e}", nm, s[0], s[2], s[3], g, w);
    }
    let d = |a: f64, b: f64| Dy::new(a).sub(&Dy::new(b));
    x.t(2);
    if s[2] == s[3] { return Ok(()); }
    let (ux, uy, vx, vy) = (d(b.x, a.x), d(b.y, a.y), d(o.x, a.x), d(o.y, a.y));
    let c = ux.mul(&vy).sub(&uy.mul(&vx));
    let w = Rat::new(c.sq(), ux.sq().add(&uy.sq())).f64().sqrt();
    let tol = 16.0 * eps * (w + (o.x - a.x).hypot(o.y - a.y));
    for (nm, g, sg) in [("point_to_line_perpendicular", Distance::point_to_line_perpendicular(o, a, b), 1),
              ("point_to_line_perpendicular_signed", Distance::point_to_line_perpendicular_signed(o, a, b), -c.sign()),
              ("LineSegment::distance_perpendicular", ls.distance_perpendicular(o), 1),
              ("LineSegment::distance_perpendicular_oriented", ls.distance_perpendicular_oriented(o), c.sign())] {
        ensure!((g - w * sg as f64).abs() <= tol, "{} {:?} {:?} {:?} = {:e} but the distance is {:e} on side {}", nm, s[0], s[2], s[3], g, w, c.sign());
    }
    x.t(4);
    // along the polyline through all the points
    let mut w = d2(s[0], s[1], s[1]);
    for e in [[1, 2], [2, 3]] { w = w.min(d2(s[0], s[e[0]], s[e[1]])); }
    let (w, e) = (w.f64().sqrt(), ext(&s));
    let g = Distance::point_to_segment_string(&p[0], &p[1..].to_vec());
    ensure!((g - w).abs() <= 16.0 * eps * (w + e), "distance of {:?} to the line {:?} = {:e} not {:e}", s[0], &s[1..], g, w);
    let g = p[0].distance(&p[1]);
    let w = d2(s[0], s[1], s[1]).f64().sqrt();
    ensure!((g - w).abs() <= 4.0 * eps * w, "distance of {:?} and {:?} = {:e} not {:e}", s[0], s[1], g, w);
    x.t(2);
    Ok(())
}

fn main() {
    let mut k = Check::new("P05");
    let n = k.q(7usize, 11);
    k.family("segment pairs on a lattice", pow(n * n, 4), |i, x| {
        let mut d = Dec(i);
        let s = [0; 4].map(|_| lat(d.take(n * n), n, -2));
        let p = s.map(|v| ID.c(v));
        let w = dist2_ss(s[0], s[1], s[2], s[3]);
        x.out(if w.0 == 0 { "touching" } else if s[0] == s[1] || s[2] == s[3] { "degenerate apart" } else { "apart" });
        x.note(|| format!("{:?} squared distance {:?}", s, w));
        for (nm, g) in [("segment_to_segment", Distance::segment_to_segment(&p[0], &p[1], &p[2], &p[3])),
                  ("LineSegment::distance", LineSegment::new_from_coordinates(&p[0], &p[1]).distance_line_segment(&LineSegment::new_from_coordinates(&p[2], &p[3])))] {
            ensure!(ok(g, w, 1.0, 0.0), "{} {:?} = {:e} but the squared distance is {:?}", nm, s, g, w);
            ensure!((g == 0.0) == (w.0 == 0), "{} {:?} = {:e}: zero exactly if the segments meet", nm, s, g);
        }
        x.t(2);
        Ok(())
    });
    let mp = maps();
    let n = k.q(5usize, 7);
    k.family("segment pairs under offset and scale", pow(n * n, 4) * mp.len() as u64, |i, x| {
        let mut d = Dec(i);
        let s = [0; 4].map(|_| lat(d.take(n * n), n, 0));
        let m = *d.of(&mp);
        let p = s.map(|v| m.c(v));
        let w = dist2_ss(s[0], s[1], s[2], s[3]);
        x.note(|| format!("{:?} offset ({},{}) scale {}", s, m.ox, m.oy, m.s));
        let g = Distance::segment_to_segment(&p[0], &p[1], &p[2], &p[3]);
        ensure!(ok(g, w, m.s, 0.0), "segment_to_segment {:?} offset ({},{}) scale {} = {:e} but the squared distance is {:?}", s, m.ox, m.oy, m.s, g, w);
        ensure!((g == 0.0) == (w.0 == 0), "segment_to_segment {:?} offset ({},{}) scale {} = {:e}: zero exactly if the segments meet", s, m.ox, m.oy, m.s, g);
        x.t(1);
        Ok(())
    });
    let mut every: Vec<Map> = (-150..=150).step_by(k.q(6, 1)).map(|e| Map { ox: 0, oy: 0, s: 2f64.powi(e) }).collect();
    for e in (0..=50).step_by(k.q(5, 2)) { let o = 1i64 << e; every.extend([Map { ox: o, oy: 0, s: 1.0 }, Map { ox: 3, oy: -o - 1, s: 2f64.powi(30) }, Map { ox: -o + 1, oy: o, s: 2f64.powi(-20) }]); }
    k.family("segment pairs at every scale and offset", pow(9, 4) * every.len() as u64, |i, x| {
        let mut d = Dec(i);
        let s = [0; 4].map(|_| lat(d.take(9), 3, -1));
        let m = *d.of(&every);
        let p = s.map(|v| m.c(v));
        let w = dist2_ss(s[0], s[1], s[2], s[3]);
        x.note(|| format!("{:?} offset ({},{}) scale {:e}", s, m.ox, m.oy, m.s));
        let g = Distance::segment_to_segment(&p[0], &p[1], &p[2], &p[3]);
        let h = LineSegment::new_from_coordinates(&p[0], &p[1]).distance_line_segment(&LineSegment::new_from_coordinates(&p[2], &p[3]));
        for g in [g, h] {
            ensure!(ok(g, w, m.s, 0.0), "distance of segments {:?} offset ({},{}) scale {:e} = {:e} but the squared distance is {:?}", s, m.ox, m.oy, m.s, g, w);
            ensure!((g == 0.0) == (w.0 == 0), "distance of segments {:?} offset ({},{}) scale {:e} = {:e}: zero exactly if the segments meet", s, m.ox, m.oy, m.s, g);
        }
        x.t(2);
        Ok(())
    });
    let dirs: Vec<I> = vec![(1 << 10, 1), (1000, 1001), ((1 << 20) - 1, 1 << 19), (-(1 << 26) - 3, 1 << 25), (1 << 24, 0), (0, 1 << 24)];
    let cuts: Vec<i64> = vec![-3, 0, 3, 6, 9];
    let u = k.q(4i64, 7);
    let w = (2 * u + 1) as usize;
    k.family("long nearly parallel segments", (dirs.len() * cuts.len() * cuts.len() * w * w * w * w) as u64, |i, x| {
        let mut d = Dec(i);
        let e = *d.of(&dirs);
        let (t0, t1) = (*d.of(&cuts), *d.of(&cuts));
        let mut o = || d.take(w) as i64 - u;
        let q1 = (e.0 * t0 / 6 + o(), e.1 * t0 / 6 + o());
        let q2 = (e.0 * t1 / 6 + o(), e.1 * t1 / 6 + o());
        let s = [(0, 0), e, q1, q2];
        let p = s.map(|v| ID.c(v));
        let w = dist2_ss(s[0], s[1], s[2], s[3]);
        let ext = s.iter().map(|v| v.0.abs().max(v.1.abs())).max().unwrap() as f64;
        x.note(|| format!("{:?} squared distance {:?}", s, w));
        let g = Distance::segment_to_segment(&p[0], &p[1], &p[2], &p[3]);
        ensure!(ok(g, w, 1.0, ext), "segment_to_segment {:?} = {:e} but the squared distance is {:?}", s, g, w);
        let h = Distance::segment_to_segment(&p[3], &p[2], &p[1], &p[0]);
        ensure!(ok(h, w, 1.0, ext), "segment_to_segment reversed {:?} = {:e} but the squared distance is {:?}", s, h, w);
        for j in 0..2 {
            let w = dist2_ps(s[2 + j], s[0], s[1]);
            let g = Distance::point_to_segment(&p[2 + j], &p[0], &p[1]);
            ensure!(ok(g, w, 1.0, ext), "point_to_segment {:?} in {:?} = {:e} but the squared distance is {:?}", s[2 + j], s, g, w);
        }
        x.t(4);
        Ok(())
    });
    // where a long segment ends decides down to its rounding error
    let dirs: Vec<I> = vec![(1, 0), (0, -1), (3, 1), (-5, 7), (-1, -1), (1, -2)];
    let exps: Vec<i64> = if k.thorough { (14..=44).collect() } else { vec![14, 22, 30, 35, 40, 44] };
    let offs = 25 * 8;
    let ways: Vec<I> = vec![(1, 0), (0, 1), (-1, 0), (0, -1), (3, 4), (-3, 4), (5, -2), (-5, -3)];
    k.family("near the ends of long segments", (dirs.len() * exps.len() * 2 * offs * ways.len() * 3) as u64, |i, x| {
        let mut d = Dec(i);
        let (e, v, w) = (*d.of(&exps), *d.of(&dirs), *d.of(&ways));
        let (a, b) = ((0, 0), (v.0 << e, v.1 << e));
        let (at, len) = (if d.bit() { b } else { a }, d.take(3));
        let o = lat(d.take(25), 5, -2);
        let j = d.take(8) as i64 * (e - 7) / 8;
        let p = (at.0 + (o.0 << j), at.1 + (o.1 << j));
        let k2 = [0, j, e][len];
        let q = (p.0 + (w.0 << k2), p.1 + (w.1 << k2));
        let c = [a, b, p, q].map(|v| ID.c(v));
        let ext = [b, p, q].iter().map(|v| v.0.abs().max(v.1.abs())).max().unwrap() as f64;
        x.note(|| format!("{:?}{:?} and {:?}{:?}", a, b, p, q));
        let fits = |g: f64, w: f64| (g - w).abs() <= 1e-13 * w + 8.0 * f64::EPSILON * ext;
        if len == 0 && w == ways[0] {
            let t = dist_ps(p, a, b);
            for g in [Distance::point_to_segment(&c[2], &c[0], &c[1]), Distance::point_to_segment(&c[2], &c[1], &c[0]), LineSegment::new_from_coordinates(&c[0], &c[1]).distance_coordinate(&c[2]), Distance::point_to_segment_string(&c[2], &vec![c[0], c[1]])] {
                ensure!(fits(g, t), "distance of {:?} to {:?}{:?} = {:e} not {:e}", p, a, b, g, t);
            }
            x.t(4);
        }
        // lines almost parallel lose their crossing's place
        if cross(sub(b, a), sub(q, p)).abs() * 4 < ((sq(sub(b, a)) as f64).sqrt() * (sq(sub(q, p)) as f64).sqrt()) as i128 { return x.skip(); }
        let t = dist_ss(a, b, p, q);
        x.out(if t == 0.0 { "touching" } else { "apart" });
        x.t(3);
        for g in [Distance::segment_to_segment(&c[0], &c[1], &c[2], &c[3]), Distance::segment_to_segment(&c[3], &c[2], &c[0], &c[1]), LineSegment::new_from_coordinates(&c[0], &c[1]).distance_line_segment(&LineSegment::new_from_coordinates(&c[2], &c[3]))] {
            ensure!((g - t).abs() <= 1e-13 * t + 32.0 * f64::EPSILON * ext, "distance of {:?}{:?} and {:?}{:?} = {:e} not {:e}", a, b, p, q, g, t);
        }
        Ok(())
    });
    let n = k.q(8usize, 11);
    let mp: Vec<Map> = mp.iter().chain(every.iter().step_by(3)).cloned().collect();
    k.family("point against segment and line", pow(n * n, 3) * mp.len() as u64, |i, x| {
        let mut d = Dec(i);
        let s = [0; 3].map(|_| lat(d.take(n * n), n, -3));
        let m = *d.of(&mp);
        let p = s.map(|v| m.c(v));
        let ls = LineSegment::new_from_coordinates(&p[1], &p[2]);
        let w = dist2_ps(s[0], s[1], s[2]);
        x.note(|| format!("{:?} offset ({},{}) scale {}", s, m.ox, m.oy, m.s));
        for (nm, g) in [("point_to_segment", Distance::point_to_segment(&p[0], &p[1], &p[2])), ("LineSegment::distance(point)", ls.distance_coordinate(&p[0]))] {
            ensure!(ok(g, w, m.s, 0.0), "{} {:?} offset ({},{}) scale {} = {:e} but the squared distance is {:?}", nm, s, m.ox, m.oy, m.s, g, w);
            ensure!((g == 0.0) == (w.0 == 0), "{} {:?} = {:e}: zero exactly on the segment", nm, s, g);
        }
        x.t(4);
        if s[1] == s[2] {
            x.out("degenerate line");
            let w = (sq(sub(s[0], s[1])), 1);
            ensure!(ok(ls.distance_perpendicular(&p[0]), w, m.s, 0.0), "perpendicular distance to a degenerate segment {:?}", s);
            ensure!(ok(ls.distance_perpendicular_oriented(&p[0]), w, m.s, 0.0), "oriented perpendicular distance to a degenerate segment {:?}", s);
            return Ok(());
        }
        let c = cross(sub(s[2], s[1]), sub(s[0], s[1]));
        let w = (c * c, sq(sub(s[2], s[1])));
        let side = c.signum() as f64;
        x.out(if c > 0 { "left of line" } else if c < 0 { "right of line" } else { "on line" });
        for (nm, g, sg) in [("point_to_line_perpendicular", Distance::point_to_line_perpendicular(&p[0], &p[1], &p[2]), 1.0),
                  ("point_to_line_perpendicular_signed", Distance::point_to_line_perpendicular_signed(&p[0], &p[1], &p[2]), -side),
                  ("LineSegment::distance_perpendicular", ls.distance_perpendicular(&p[0]), 1.0),
                  ("LineSegment::distance_perpendicular_oriented", ls.distance_perpendicular_oriented(&p[0]), side)] {
            ensure!(ok(g.abs(), w, m.s, 0.0) && (g == 0.0 || g.signum() == sg), "{} {:?} offset ({},{}) scale {} = {:e} but the squared distance is {:?} on side {}", nm, s, m.ox, m.oy, m.s, g, w, side);
        }
        x.t(4);
        Ok(())
    });
    // a point far from a short segment, or near a long one
    let exps: Vec<i64> = (4..=44).step_by(k.q(4, 1)).collect();
    let sc: Vec<f64> = vec![1.0, 2f64.powi(-60), 2f64.powi(70)];
    k.family("points far from short segments", 24 * 25 * 81 * (exps.len() * exps.len() * sc.len()) as u64, |i, x| {
        let mut d = Dec(i);
        let v = { let v = lat(d.take(24), 5, -2); if v == (0, 0) { (2, 2) } else { v } };
        let t = lat(d.take(25), 5, -2);
        let u = lat(d.take(81), 9, -4);
        let (e, f) = (*d.of(&exps), *d.of(&exps));
        let m = Map { ox: 0, oy: 0, s: *d.of(&sc) };
        let (a, b) = (t, (t.0 + v.0, t.1 + v.1));
        let q = (u.0 * (1 << e) + 1, u.1 * (1 << f) - 1);
        let p = [m.c(q), m.c(a), m.c(b)];
        x.note(|| format!("{:?} {:?}{:?} scale {:e}", q, a, b, m.s));
        let w = dist2_ps(q, a, b);
        let r = (w.0 as f64 / w.1 as f64).sqrt() * m.s;
        let g = Distance::point_to_segment(&p[0], &p[1], &p[2]);
        ensure!((g - r).abs() <= 1e-14 * r, "point_to_segment {:?} {:?}{:?} scale {:e} = {:e} not {:e}", q, a, b, m.s, g, r);
        let c = cross(sub(b, a), sub(q, a));
        let r = c.unsigned_abs() as f64 / (sq(sub(b, a)) as f64).sqrt() * m.s;
        let side = c.signum() as f64;
        x.out(if c > 0 { "left" } else if c < 0 { "right" } else { "on line" });
        let ls = LineSegment::new_from_coordinates(&p[1], &p[2]);
        for (nm, g, sg) in [("point_to_line_perpendicular", Distance::point_to_line_perpendicular(&p[0], &p[1], &p[2]), 1.0),
                  ("point_to_line_perpendicular_signed", Distance::point_to_line_perpendicular_signed(&p[0], &p[1], &p[2]), -side),
                  ("LineSegment::distance_perpendicular", ls.distance_perpendicular(&p[0]), 1.0),
                  ("LineSegment::distance_perpendicular_oriented", ls.distance_perpendicular_oriented(&p[0]), side)] {
            ensure!((g.abs() - r).abs() <= 1e-14 * r && (g == 0.0 || g.signum() == sg), "{} {:?} {:?}{:?} scale {:e} = {:e} not {:e} on side {}", nm, q, a, b, m.s, g, r, side);
        }
        let g = Distance::segment_to_segment(&p[0], &p[0], &p[1], &p[2]);
        let r = (w.0 as f64 / w.1 as f64).sqrt() * m.s;
        ensure!((g - r).abs() <= 1e-14 * r, "segment_to_segment of the point {:?} and {:?}{:?} scale {:e} = {:e} not {:e}", q, a, b, m.s, g, r);
        x.t(6);
        Ok(())
    });
    // a point all but on the line: the oriented distance is on the side the point is exactly on
    let far: Vec<i64> = vec![(1 << 26) + 1, (1 << 29) - 3, (1 << 33) + 5, (1 << 40) + 7, (1 << 45) - 1];
    let vs: Vec<I> = vec![(1, 0), (3, 1), (5, -7), (-11, 13), (-2, -9), (0, 1)];
    k.family("sides of points all but on the line", (vs.len() * far.len() * far.len() * 81 * 25 * 4) as u64, |i, x| {
        let mut d = Dec(i);
        let (v, f1, f2) = (*d.of(&vs), *d.of(&far), *d.of(&far));
        let (o, t) = (lat(d.take(81), 9, -4), lat(d.take(25), 5, -2));
        let base = *d.of(&[(0, 0), (12345, -999), ((1 << 30) + 1, 7), (-3, (1 << 44) + 1)]);
        let a = (base.0 + t.0, base.1 + t.1);
        let (b, p) = ((base.0 + v.0 * f1, base.1 + v.1 * f1), (base.0 + v.0 * f2 + o.0, base.1 + v.1 * f2 + o.1));
        let side = orient_i(a, b, p);
        let g = LineSegment::new_from_coordinates(&ID.c(a), &ID.c(b)).distance_perpendicular_oriented(&ID.c(p));
        x.note(|| format!("{:?} {:?} {:?}", a, b, p));
        x.t(1);
        x.out(if side == 0 { "on the line" } else if g == 0.0 { "rounded to nothing" } else { "beside" });
        let sg = if g > 0.0 { 1 } else if g < 0.0 { -1 } else { 0 };
        ensure!(sg == 0 || side == 0 || sg == side, "oriented perpendicular distance of {:?} to {:?}{:?} is {:e} though the point is on side {}", p, a, b, g, side);
        Ok(())
    });
    let nd = k.q(11usize, 16);
    k.family("decimal points and segments", pow(nd, 4), |i, x| {
        let mut d = Dec(i);
        let s = [0; 4].map(|_| DEC[d.take(nd)]);
        decimal(s, x)
    });
    let base: Vec<P> = vec![(0.1, 0.2), (-123.456, 7.7), (1e6 + 0.1, -1e6 / 3.0), (1e-5 / 3.0, 0.9)];
    let dir: Vec<P> = vec![(1.0 / 3.0, 0.7), (-0.9, 0.1), (1e-3, 1.0 / 7.0), (55.5, -33.3)];
    let fac = [(0.4, 1.1), (0.3, 1.7), (-0.7, 0.6), (0.0, 1.0), (0.1, 0.9), (1.0, 2.2), (1.3, 2.0), (0.5, 0.5)];
    let gap = [(0.0, 0.0), (1e-9, -1e-9), (-0.037, 0.01), (0.0, 0.6), (3.3, 3.3), (1e-6, 2.7)];
    let u = k.q(1i64, 3);
    let wd = (2 * u + 1) as usize;
    k.family("nearly parallel decimal segments", (base.len() * dir.len() * fac.len() * gap.len() * 2) as u64 * pow(wd, 4), |i, x| {
        let mut d = Dec(i);
        let (b, v, f, g) = (*d.of(&base), *d.of(&dir), *d.of(&fac), *d.of(&gap));
        let swap = d.bit();
        let at = |t: f64, h: f64| (b.0 + v.0 * t - v.1 * h, b.1 + v.1 * t + v.0 * h);
        let mut o = || d.take(wd) as i64 - u;
        let (q1, q2) = (at(f.0, g.0), at(f.1, g.1));
        let q1 = (ulp(q1.0, o()), ulp(q1.1, o()));
        let q2 = (ulp(q2.0, o()), ulp(q2.1, o()));
        decimal(if swap { [q2, q1, at(1.0, 0.0), b] } else { [b, at(1.0, 0.0), q1, q2] }, x)
    });
    let (n, len) = k.q((3usize, 5usize), (4, 5));
    let pm: Vec<Map> = vec![ID, Map { ox: -77, oy: 1 << 30, s: 1.0 }, Map { ox: 1, oy: 0, s: 2f64.powi(-60) }, Map { ox: 0, oy: -5, s: 2f64.powi(40) }];
    k.family("point against polyline", seqs(n * n, 0, len) * pm.len() as u64, |i, x| {
        let mut d = Dec(i);
        let m = *d.of(&pm);
        let l: Vec<I> = seq(&mut d, n * n, 0, len).iter().map(|&v| { let p = lat(v, n, 0); (2 * p.0, 2 * p.1) }).collect();
        let v: Vec<Coordinate> = l.iter().map(|&p| m.c(p)).collect();
        x.note(|| format!("line {:?} offset ({},{}) scale {:e}", l, m.ox, m.oy, m.s));
        for px in -1..=5 { for py in -1..=5 {
            let g = Distance::point_to_segment_string(&m.c((px, py)), &v);
            x.t(1);
            if l.is_empty() { ensure!(g.is_nan(), "distance to no line is {}", g); continue; }
            let mut w = (sq(sub((px, py), l[0])), 1);
            for e in l.windows(2) { let t = dist2_ps((px, py), e[0], e[1]); if less(t, w) { w = t; } }
            ensure!(ok(g, w, m.s, 0.0), "distance of ({},{}) to {:?} = {:e} but squared {:?}", px, py, l, g, w);
        } }
        Ok(())
    });
    // long polylines: the nearest part may be any of 50 segments
    let lines: Vec<Vec<I>> = vec![
        (0..50).map(|k| (k, (k * k) % 11)).collect(), (0..50).map(|k| ((k * 7) % 13, (k * 5) % 17)).collect(), (0..40).map(|k| (k / 2, if (k / 2) % 2 == 0 { k % 2 } else { 1 - k % 2 })).collect(),
    ];
    k.family("point against long polyline", 3 * 60 * 30, |i, x| {
        let mut d = Dec(i);
        let l = d.of(&lines);
        let p = (d.take(60) as i64 - 5, d.take(30) as i64 - 8);
        let v: Vec<Coordinate> = l.iter().map(|&p| ID.c(p)).collect();
        let mut w = (sq(sub(p, l[0])), 1);
        for e in l.windows(2) { let t = dist2_ps(p, e[0], e[1]); if less(t, w) { w = t; } }
        let g = Distance::point_to_segment_string(&ID.c(p), &v);
        x.t(1);
        x.note(|| format!("{:?} to a line of {} points, squared distance {:?}", p, l.len(), w));
        ensure!(ok(g, w, 1.0, 0.0), "distance of {:?} to {:?} = {:e} but squared {:?}", p, l, g, w);
        Ok(())
    });
    // polylines of every size, the point nearest to each of their parts in turn
    let top = k.q(300u64, 1200);
    k.family("polylines of every size", top * 3, |i, x| {
        let mut d = Dec(i);
        let shape = d.take(3);
        let n = d.0 as i64 + 1;
        let l: Vec<I> = (0..n).map(|k| match shape { 0 => (4 * k, if k % 2 == 0 { 0 } else { 6 }), 1 => (4 * k, -3 * k), _ => ((k * 7919) % 83 * 4, (k * 104729) % 61 * 4) }).collect();
        let v: Vec<Coordinate> = l.iter().map(|&p| ID.c(p)).collect();
        x.note(|| format!("shape {} of {} points", shape, n));
        for s in 0..l.len() {
            if n > 64 && s > 2 && s + 3 < l.len() && s % 13 != i as usize % 13 { continue; }
            let b = l[(s + 1).min(l.len() - 1)];
            for p in [l[s], (l[s].0 - 1, l[s].1 - 1), ((l[s].0 + b.0) / 2 + 1, (l[s].1 + b.1) / 2 + 2)] {
                let mut w = (sq(sub(p, l[0])), 1);
                for e in l.windows(2) { let t = dist2_ps(p, e[0], e[1]); if less(t, w) { w = t; } }
                let g = Distance::point_to_segment_string(&ID.c(p), &v);
                x.t(1);
                ensure!(ok(g, w, 1.0, 0.0), "distance of {:?} to {:?} = {:e} but squared {:?}", p, l, g, w);
            }
        }
        Ok(())
    });
    // more points than eight or sixteen bits count, the nearest part anywhere
    let hg = huge(70001);
    k.family("huge polylines", hg.len() as u64 * 3, |i, x| {
        let mut d = Dec(i);
        let (n, s) = *d.of(&hg);
        let shape = d.take(3);
        let n = n as i64;
        let l: Vec<I> = (0..n).map(|k| match shape { 0 => (4 * k, if k % 2 == 0 { 0 } else { 6 }), 1 => if k == s as i64 { (400, 30) } else { (k % 50, 0) }, _ => ((k * 7919) % 83 * 4, (k * 104729) % 61 * 4) }).collect();
        let v: Vec<Coordinate> = l.iter().map(|&p| ID.c(p)).collect();
        x.note(|| format!("shape {} of {} points, part {}", shape, n, s));
        let b = l[(s + 1).min(l.len() - 1)];
        for p in [l[s], (l[s].0 - 1, l[s].1 - 1), ((l[s].0 + b.0) / 2 + 1, (l[s].1 + b.1) / 2 + 2), (l[s].0 + 3, l[s].1 + 5)] {
            let mut w = (sq(sub(p, l[0])), 1);
            for e in l.windows(2) { let t = dist2_ps(p, e[0], e[1]); if less(t, w) { w = t; } }
            let g = Distance::point_to_segment_string(&ID.c(p), &v);
            x.t(1);
            ensure!(ok(g, w, 1.0, 0.0), "distance of {:?} to line {} of {} points near number {} = {:e} but squared {:?}", p, shape, n, s, g, w);
        }
        Ok(())
    });
    // two parts whose distances differ in any bit: the nearer one counts
    k.family("parts almost equally near", 54 * 4 * 3 * 2 * 41, |i, x| {
        let mut d = Dec(i);
        let e = d.take(54) as i32;
        let (sg, m, first) = (d.take(4), [1.0, 1.5, 3.0][d.take(3)], d.bit());
        let sc = 2f64.powi((d.take(41) as i32 - 20) * 10);
        let near = m * sc;
        let far = m * sc * (1.0 + 2f64.powi(-e));
        let (a, b) = if first { (near, far) } else { (far, near) };
        let (a, b) = (if sg & 1 == 0 { a } else { -a }, if sg & 2 == 0 { b } else { -b });
        let o = 16.0 * sc;
        let v: Vec<Coordinate> = [(-o, a), (o, a), (o, b), (-o, b)].iter().map(|p| Coordinate::new_xy(p.0, p.1)).collect();
        let g = Distance::point_to_segment_string(&Coordinate::new_xy(0.0, 0.0), &v);
        x.t(1);
        x.out(if first { "first part nearer" } else { "last part nearer" });
        x.note(|| format!("heights {:e} and {:e}", a, b));
        ensure!((g - near).abs() <= 4.5e-16 * near, "parts at distances {:e} and {:e} but the distance is {:e}", near, far, g);
        Ok(())
    });
    // point to point, Z ignored
    let al = [0.0, -0.0, 1.0, -3.0, 4.0, 1e-160, 1e160, 1e15 + 1.0, 1e15];
    k.family("point to point", pow(al.len(), 4), |i, x| {
        let mut d = Dec(i);
        let v = [0; 4].map(|_| *d.of(&al));
        let g = Coordinate::new_xyz(v[0], v[1], 7.0).distance(&Coordinate::new_xyzm(v[2], v[3], -9.0, 1.0));
        x.t(1);
        let (a, b) = (Dy::new(v[0]).sub(&Dy::new(v[2])).abs().f64(), Dy::new(v[1]).sub(&Dy::new(v[3])).abs().f64());
        let (hi, lo) = if a > b { (a, b) } else { (b, a) };
        let w = if hi == 0.0 { 0.0 } else { hi * (1.0 + (lo / hi) * (lo / hi)).sqrt() };
        x.note(|| format!("{:?} -> {}", v, w));
        ensure!(geosmc::num::close(g, w, 1e-14, 0.0), "distance of {:?} = {:e} not {:e}", v, g, w);
        Ok(())
    });
    k.finish()
}
