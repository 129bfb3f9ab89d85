// P06 Line-segment referencing operations are mutually consistent and exact
use geos_rs::verif::*;
use geosmc::{ensure, exact::*, geo::*, mc::*, num::ulp};

#[derive(Clone, Copy)]
struct Map { ox: i64, oy: i64, s: f64 }
impl Map {
    fn c(&self, p: I) -> Coordinate { Coordinate::new_xy((p.0 + self.ox) as f64 * self.s, (p.1 + self.oy) as f64 * self.s) }
    fn at(&self, x: f64, y: f64) -> P { ((x + self.ox as f64) * self.s, (y + self.oy as f64) * self.s) }
    /// absolute tolerance for a computed position
    fn tol(&self) -> f64 { (1e-13 * 32.0 + 8.0 * f64::EPSILON * self.ox.abs().max(self.oy.abs()) as f64) * self.s.abs() }
}
fn near(c: &Coordinate, p: P, tol: f64) -> bool { (c.x - p.0).abs() <= tol && (c.y - p.1).abs() <= tol }
fn sg(a: I, b: I, m: Map) -> LineSegment { LineSegment::new_from_coordinates(&m.c(a), &m.c(b)) }
/// position at fraction n/d along ab, in model units
fn along(a: I, b: I, r: f64) -> P { (a.0 as f64 + r * (b.0 - a.0) as f64, a.1 as f64 + r * (b.1 - a.1) as f64) }

/// a point and two segments off the lattice, where differences and products are rounded
fn decimal(s: [P; 4], x: &mut Ctx) -> Res {
    let p = s.map(|v| Coordinate::new_xy(v.0, v.1));
    let eps = f64::EPSILON;
    x.note(|| format!("{:?}", s));
    let d = |a: f64, b: f64| Dy::new(a).sub(&Dy::new(b));
    let big = s.iter().map(|q| q.0.abs().max(q.1.abs())).fold(0.0, f64::max);
    let (a, b) = (s[0], s[1]);
    let ls = LineSegment::new_from_coordinates(&p[0], &p[1]);
    let other = LineSegment::new_from_coordinates(&p[2], &p[3]);
    if a == b { return x.skip(); }
    let (ux, uy) = (d(b.0, a.0), d(b.1, a.1));
    let l = ux.sq().add(&uy.sq());
    let len = l.f64().sqrt();
    let tol = 16.0 * eps * big;
    // exact projection factor and foot
    let factor = |q: P| Rat::new(ux.mul(&d(q.0, a.0)).add(&uy.mul(&d(q.1, a.1))), l.clone());
    let at = |r: &Rat| (Rat::of(a.0).add(&r.mul(&Rat::dy(ux.clone()))).f64(), Rat::of(a.1).add(&r.mul(&Rat::dy(uy.clone()))).f64());
    let clamp = |r: &Rat| if r.sign() < 0 { Rat::of(0.0) } else if *r > Rat::of(1.0) { Rat::of(1.0) } else { r.clone() };
    let mut ends = vec![];
    for k in [2, 3] {
        let q = s[k];
        let r = factor(q);
        let rt = 8.0 * eps * (d(q.0, a.0).f64().hypot(d(q.1, a.1).f64()) / len + r.f64().abs());
        let w = || format!("segment {:?}{:?} point {:?}", a, b, q);
        let (pf, sf) = (ls.projection_factor(&p[k]), ls.segment_fraction(&p[k]));
        ensure!((pf - r.f64()).abs() <= rt, "{}: projection factor {:e} not {:e}", w(), pf, r.f64());
        ensure!((sf - clamp(&r).f64()).abs() <= rt && (0.0..=1.0).contains(&sf), "{}: segment fraction {:e} not {:e}", w(), sf, clamp(&r).f64());
        let (e, pr) = (at(&r), ls.project_coordinate(&p[k]));
        ensure!(near(&pr, e, tol), "{}: projected point ({:e},{:e}) not {:?}", w(), pr.x, pr.y, e);
        let pr = ls.project_coordinate_with_projection_factor(&p[k], r.f64());
        ensure!(near(&pr, e, tol + 4.0 * eps * len * r.f64().abs()), "{}: projected point by factor ({:e},{:e}) not {:?}", w(), pr.x, pr.y, e);
        let (e, cp) = (at(&clamp(&r)), ls.closest_point(&p[k]));
        // a point of a short segment that is as near as the nearest, to the last bit, will do
        let (c2, m2) = (d2(q, (cp.x, cp.y), (cp.x, cp.y)).f64().sqrt(), d2(q, a, b).f64().sqrt());
        let as_near = c2 - m2 <= 4.0 * eps * m2 && d2((cp.x, cp.y), a, b).f64().sqrt() <= tol;
        ensure!(near(&cp, e, tol) || as_near, "{}: closest point ({:e},{:e}) not {:?}", w(), cp.x, cp.y, e);
        let f = at(&r);
        let (e, rf) = ((2.0 * f.0 - q.0, 2.0 * f.1 - q.1), ls.reflect(&p[k]));
        ensure!(near(&rf, e, 8.0 * tol), "{}: reflection ({:e},{:e}) not {:?}", w(), rf.x, rf.y, e);
        x.t(6);
        ends.push((r.clone(), rt, at(&clamp(&r))));
    }
    // the part of the segment covered by the other
    let g = ls.project_line_segment(&other);
    x.t(1);
    let (zero, one) = (Rat::of(0.0), Rat::of(1.0));
    let sure = ends.iter().all(|(r, rt, _)| { let v = r.f64(); (v.abs() > *rt || r.sign() == 0 && s[2..].contains(&a)) && ((v - 1.0).abs() > *rt || *r == one && s[2..].contains(&b)) });
    if !sure { x.out("decimal: too close to tell"); }
    else if ends.iter().all(|e| e.0 <= zero) || ends.iter().all(|e| e.0 >= one) { x.out("decimal: no projection"); ensure!(g.is_none(), "{:?}: projection should be nothing", s); }
    else {
        x.out("decimal: projection");
        ensure!(g.is_some(), "{:?}: projection is missing", s);
        let g = g.unwrap();
        ensure!(near(&g.p0, ends[0].2, tol) && near(&g.p1, ends[1].2, tol), "{:?}: projection ({:e},{:e})-({:e},{:e}) not {:?}-{:?}", s, g.p0.x, g.p0.y, g.p1.x, g.p1.y, ends[0].2, ends[1].2);
    }
    // points along and beside
    for f in [0.0, 1.0, 0.3, -0.7, 1.0 / 3.0, 2.1] {
        let r = Rat::of(f);
        let (e, g) = (at(&r), ls.point_along(f));
        ensure!(near(&g, e, 4.0 * eps * (big + f.abs() * len)), "{:?}: point along {} ({:e},{:e}) not {:?}", &s[..2], f, g.x, g.y, e);
        for o in [0.1, -2.7] {
            let (nx, ny) = (-uy.f64() / len, ux.f64() / len);
            let e = (e.0 + o * nx, e.1 + o * ny);
            let t = 8.0 * eps * (big + f.abs() * len + f64::abs(o));
            let g = ls.point_along_offset(f, o);
            ensure!(near(&g, e, t), "{:?}: offset point {} {} ({:e},{:e}) not {:?}", &s[..2], f, o, g.x, g.y, e);
            if f == 0.0 { let g = ls.offset(o).p0; ensure!(near(&g, e, t), "{:?}: offset segment starts at ({:e},{:e}) not {:?}", &s[..2], g.x, g.y, e); }
            if f == 1.0 { let g = ls.offset(o).p1; ensure!(near(&g, e, t), "{:?}: offset segment ends at ({:e},{:e}) not {:?}", &s[..2], g.x, g.y, e); }
        }
        x.t(4);
    }
    let g = ls.mid_point();
    let e = at(&Rat::of(0.5));
    ensure!(near(&g, e, 4.0 * eps * big), "{:?}: mid point ({:e},{:e}) not {:?}", &s[..2], g.x, g.y, e);
    ensure!((ls.get_length() - len).abs() <= 4.0 * eps * len, "{:?}: length {:e} not {:e}", &s[..2], ls.get_length(), len);
    let e = uy.f64().atan2(ux.f64());
    ensure!((ls.angle() - e).abs() <= 4.0 * eps * e.abs().max(eps), "{:?}: angle {:e} not {:e}", &s[..2], ls.angle(), e);
    x.t(3);
    // closest points: one on each segment, as far apart as the segments
    if s[2] == s[3] { return Ok(()); }
    let v = ls.closest_points(&other);
    x.t(1);
    ensure!(v.len() == 2, "{:?}: {} closest points", s, v.len());
    let lo = (s[3].0 - s[2].0).hypot(s[3].1 - s[2].1);
    for (g, h) in [(&v[0], &s[..2]), (&v[1], &s[2..])] {
        let w = d2((g.x, g.y), h[0], h[1]).f64().sqrt();
        ensure!(w <= 2.0 * tol, "{:?}: closest point ({:e},{:e}) is {:e} off its segment", s, g.x, g.y, w);
    }
    let w = if segs_share(s) { 0.0 } else { [d2(s[0], s[2], s[3]), d2(s[1], s[2], s[3]), d2(s[2], s[0], s[1]), d2(s[3], s[0], s[1])].into_iter().min().unwrap().f64().sqrt() };
    let dd = (v[0].x - v[1].x).hypot(v[0].y - v[1].y);
    let t = 2.0 * tol * (big / len.min(lo)).max(1.0);
    ensure!((dd - w).abs() <= t, "{:?}: closest points ({:e},{:e}) ({:e},{:e}) are {:e} apart, the segments {:e}", s, v[0].x, v[0].y, v[1].x, v[1].y, dd, w);
    Ok(())
}

/// closest points, intersection and projection of two lattice segments under a map
fn seg_seg(s: [I; 4], m: Map, x: &mut Ctx) -> Res {
    let (s0, s1) = (sg(s[0], s[1], m), sg(s[2], s[3], m));
    let w = || format!("segments {:?} at ({},{}) scale {}", s, m.ox, m.oy, m.s);
    x.note(w);
    let t = m.tol();
    let v = s0.closest_points(&s1);
    x.t(2);
    ensure!(v.len() == 2, "{}: {} closest points", w(), v.len());
    let d2 = dist2_ss(s[0], s[1], s[2], s[3]);
    let dd = q(d2.0, d2.1).sqrt() * m.s.abs();
    ensure!(((v[0].x - v[1].x).hypot(v[0].y - v[1].y) - dd).abs() <= 4.0 * t, "{}: closest points ({},{}) ({},{}) are not {} apart", w(), v[0].x, v[0].y, v[1].x, v[1].y, dd);
    // each lies on its own segment
    for (g, a, b) in [(&v[0], s[0], s[1]), (&v[1], s[2], s[3])] {
        let (gx, gy) = (g.x / m.s - m.ox as f64, g.y / m.s - m.oy as f64);
        let u = ((b.0 - a.0) as f64, (b.1 - a.1) as f64);
        let l = u.0 * u.0 + u.1 * u.1;
        let r = if l == 0.0 { 0.0 } else { (((gx - a.0 as f64) * u.0 + (gy - a.1 as f64) * u.1) / l).clamp(0.0, 1.0) };
        let e = along(a, b, r);
        ensure!((gx - e.0).hypot(gy - e.1) <= 4.0 * t / m.s.abs(), "{}: closest point ({},{}) is not on its segment", w(), g.x, g.y);
    }
    let int = s0.intersection(&s1);
    ensure!(int.is_some() == (d2.0 == 0), "{}: intersection present {}", w(), int.is_some());
    if let Some(g) = int {
        for (a, b) in [(s[0], s[1]), (s[2], s[3])] {
            let dg = Distance::point_to_segment(&g, &m.c(a), &m.c(b));
            ensure!(dg <= 4.0 * t, "{}: intersection ({},{}) is {} away from a segment", w(), g.x, g.y, dg);
        }
    }
    if s[0] == s[1] { return Ok(()); }
    let u = sub(s[1], s[0]);
    let len = sq(u);
    let (r0, r1) = (dot(sub(s[2], s[0]), u), dot(sub(s[3], s[0]), u));
    let g = s0.project_line_segment(&s1);
    x.t(1);
    if (r0 <= 0 && r1 <= 0) || (r0 >= len && r1 >= len) {
        x.out("no projection");
        ensure!(g.is_none(), "{}: projection should be nothing", w());
    } else {
        x.out("projection");
        ensure!(g.is_some(), "{}: projection is missing", w());
        let g = g.unwrap();
        let (e0, e1) = (along(s[0], s[1], q(r0, len).clamp(0.0, 1.0)), along(s[0], s[1], q(r1, len).clamp(0.0, 1.0)));
        let (e0, e1) = (m.at(e0.0, e0.1), m.at(e1.0, e1.1));
        ensure!(near(&g.p0, e0, t) && near(&g.p1, e1, t), "{}: projection ({},{})-({},{}) not {:?}-{:?}", w(), g.p0.x, g.p0.y, g.p1.x, g.p1.y, e0, e1);
    }
    Ok(())
}

fn main() {
    let mut k = Check::new("P06");
    let maps = vec![Map { ox: 0, oy: 0, s: 1.0 }, Map { ox: 1000003, oy: -77, s: 0.25 }, Map { ox: 0, oy: 0, s: 2f64.powi(-60) }, Map { ox: -(1 << 40), oy: 1 << 41, s: 2.0 }];
    let core = maps.clone();
    let mut maps = maps;
    for e in (-145..=145).step_by(k.q(29, 5)) { maps.push(Map { ox: 0, oy: 0, s: 2f64.powi(e) }); }
    for e in (1..=48).step_by(k.q(9, 4)) { maps.push(Map { ox: 1 << e, oy: 3 - (1 << (e / 2)), s: 1.0 }); }
    let n = k.q(7usize, 9);
    k.family("a point and a segment", pow(n * n, 3) * maps.len() as u64, |i, x| {
        let mut d = Dec(i);
        let (p, a, b) = (lat(d.take(n * n), n, -3), lat(d.take(n * n), n, -3), lat(d.take(n * n), n, -3));
        let m = *d.of(&maps);
        let (s, c, t) = (sg(a, b, m), m.c(p), m.tol());
        let w = format!("segment {:?}{:?} point {:?} offset ({},{}) scale {}", a, b, p, m.ox, m.oy, m.s);
        x.note(|| w.clone());
        let u = sub(b, a);
        let len = sq(u);
        let cp = s.closest_point(&c);
        x.t(1);
        if len == 0 {
            x.out("degenerate segment");
            ensure!(near(&cp, m.at(a.0 as f64, a.1 as f64), 0.0), "{}: closest point ({},{})", w, cp.x, cp.y);
            return Ok(());
        }
        let dt = dot(sub(p, a), u);
        let r = q(dt, len);
        x.out(if dt < 0 { "before" } else if dt == 0 { "at start" } else if dt < len { "inside" } else if dt == len { "at end" } else { "beyond" });
        let pf = s.projection_factor(&c);
        ensure!((pf - r).abs() <= 1e-13 * r.abs().max(1.0) && (pf <= 0.0) == (dt <= 0) && (pf >= 1.0) == (dt >= len), "{}: projection factor {} not {}", w, pf, r);
        let sf = s.segment_fraction(&c);
        ensure!((sf - r.clamp(0.0, 1.0)).abs() <= 1e-13, "{}: segment fraction {} not {}", w, sf, r.clamp(0.0, 1.0));
        let e = along(a, b, r);
        let pr = s.project_coordinate(&c);
        ensure!(near(&pr, m.at(e.0, e.1), t), "{}: projected point ({},{}) not {:?}", w, pr.x, pr.y, m.at(e.0, e.1));
        let pr = s.project_coordinate_with_projection_factor(&c, r);
        ensure!(near(&pr, m.at(e.0, e.1), t), "{}: projected point by factor ({},{}) not {:?}", w, pr.x, pr.y, m.at(e.0, e.1));
        let e = along(a, b, r.clamp(0.0, 1.0));
        ensure!(near(&cp, m.at(e.0, e.1), t), "{}: closest point ({},{}) not {:?}", w, cp.x, cp.y, m.at(e.0, e.1));
        x.t(4);
        if m.ox == 0 {
            let (fx, fy) = along(a, b, r);
            let rf = s.reflect(&c);
            let e = (2.0 * fx - p.0 as f64, 2.0 * fy - p.1 as f64);
            ensure!(near(&rf, m.at(e.0, e.1), t), "{}: reflection ({},{}) not {:?}", w, rf.x, rf.y, m.at(e.0, e.1));
            x.t(1);
        }
        Ok(())
    });
    // a point far from a short segment
    let exps: Vec<i64> = (4..=44).step_by(k.q(4, 1)).collect();
    let sc: Vec<f64> = vec![1.0, 2f64.powi(-60), 2f64.powi(70)];
    k.family("points far from short segments", 24 * 25 * 81 * (exps.len() * exps.len() * sc.len()) as u64, |i, x| {
        let mut d = Dec(i);
        let v = { let v = lat(d.take(24), 5, -2); if v == (0, 0) { (2, 2) } else { v } };
        let t = lat(d.take(25), 5, -2);
        let u = lat(d.take(81), 9, -4);
        let (e, f) = (*d.of(&exps), *d.of(&exps));
        let m = Map { ox: 0, oy: 0, s: *d.of(&sc) };
        let (a, b) = (t, (t.0 + v.0, t.1 + v.1));
        let p = (u.0 * (1 << e) + 1, u.1 * (1 << f) - 1);
        let (s, c) = (sg(a, b, m), m.c(p));
        let w = format!("segment {:?}{:?} point {:?} scale {:e}", a, b, p, m.s);
        x.note(|| w.clone());
        let (dt, len) = (dot(sub(p, a), v), sq(v));
        let r = q(dt, len);
        let size = p.0.abs().max(p.1.abs()) as f64;
        // rounding of a position, and of the factor times the side
        let tol = (size + 8.0) * 1e-14 * m.s;
        x.out(if dt < 0 { "before" } else if dt < len { "beside" } else { "beyond" });
        let (pf, sf) = (s.projection_factor(&c), s.segment_fraction(&c));
        // the products of both axes are rounded before they are added
        let rt = 1e-14 * size * ((v.0.abs() + v.1.abs()) as f64) / len as f64;
        ensure!((pf - r).abs() <= rt, "{}: projection factor {:e} not {:e}", w, pf, r);
        ensure!((sf - r.clamp(0.0, 1.0)).abs() <= rt && (0.0..=1.0).contains(&sf), "{}: segment fraction {:e} not {:e}", w, sf, r.clamp(0.0, 1.0));
        let e = along(a, b, r);
        let (pr, pg) = (s.project_coordinate(&c), s.project_coordinate_with_projection_factor(&c, r));
        ensure!(near(&pr, m.at(e.0, e.1), 4.0 * tol) && near(&pg, m.at(e.0, e.1), 4.0 * tol), "{}: projected point ({:e},{:e}) and by factor ({:e},{:e}) not {:?}", w, pr.x, pr.y, pg.x, pg.y, e);
        let rf = s.reflect(&c);
        let h = m.at(2.0 * e.0 - p.0 as f64, 2.0 * e.1 - p.1 as f64);
        ensure!(near(&rf, h, 16.0 * tol), "{}: reflection ({:e},{:e}) not {:?}", w, rf.x, rf.y, h);
        let cp = s.closest_point(&c);
        let e = along(a, b, r.clamp(0.0, 1.0));
        let ct = 4.0 * tol.min(rt * 4.0 * m.s + 1e-13 * m.s);
        // an end or a point between them that rounding cannot tell from the nearest
        let g = (cp.x / m.s, cp.y / m.s);
        let (pf2, ef) = ((p.0 as f64, p.1 as f64), ((g.0 - a.0 as f64) * v.1 as f64 - (g.1 - a.1 as f64) * v.0 as f64).abs());
        let gain = (g.0 - e.0) * (g.0 + e.0 - 2.0 * pf2.0) + (g.1 - e.1) * (g.1 + e.1 - 2.0 * pf2.1);
        let m2 = (e.0 - pf2.0) * (e.0 - pf2.0) + (e.1 - pf2.1) * (e.1 - pf2.1);
        let between = { let t = (g.0 - a.0 as f64) * v.0 as f64 + (g.1 - a.1 as f64) * v.1 as f64; t >= -1e-12 && t <= len as f64 + 1e-12 };
        let as_near = gain <= 8.0 * f64::EPSILON * m2 && between && ef * m.s <= ct * 8.0;
        ensure!(near(&cp, m.at(e.0, e.1), ct) || as_near, "{}: closest point ({:e},{:e}) not {:?}", w, cp.x, cp.y, e);
        x.t(6);
        Ok(())
    });
    // where a long segment ends decides down to its rounding error
    let dirs: Vec<I> = vec![(1, 0), (0, -1), (3, 1), (-5, 7), (-1, -1), (1, -2)];
    let exps: Vec<i64> = if k.thorough { (14..=44).collect() } else { vec![14, 22, 30, 35, 40, 44] };
    k.family("near the ends of long segments", (dirs.len() * exps.len() * 2 * 25 * 25 * 8) as u64, |i, x| {
        let mut d = Dec(i);
        let (e, v) = (*d.of(&exps), *d.of(&dirs));
        let (a, b) = ((0, 0), (v.0 << e, v.1 << e));
        let end = d.bit();
        let at = if end { b } else { a };
        let j = d.take(8) as i64 * (e - 7) / 8;
        let (o, o2) = (lat(d.take(25), 5, -2), lat(d.take(25), 5, -2));
        let (p, p2) = ((at.0 + (o.0 << j), at.1 + (o.1 << j)), (at.0 + (o2.0 << j), at.1 + (o2.1 << j)));
        let m = Map { ox: 0, oy: 0, s: 1.0 };
        let (s, c) = (sg(a, b, m), m.c(p));
        let ext = b.0.abs().max(b.1.abs()).max(p.0.abs()).max(p.1.abs()) as f64;
        // near the start every difference is small and exact
        let tol = 8.0 * f64::EPSILON * if end { ext } else { 4.0 * (1i64 << j) as f64 };
        let ft = 8.0 * f64::EPSILON;
        let w = || format!("segment {:?}{:?} points {:?} {:?}", a, b, p, p2);
        x.note(w);
        let u = sub(b, a);
        let len = sq(u);
        let dt = dot(sub(p, a), u);
        let r = q(dt, len);
        let e = if dt <= 0 { (a.0 as f64, a.1 as f64) } else if dt >= len { (b.0 as f64, b.1 as f64) } else if end { let k = q(len - dt, len); (b.0 as f64 - k * u.0 as f64, b.1 as f64 - k * u.1 as f64) } else { along(a, b, r) };
        let g = s.closest_point(&c);
        ensure!(near(&g, e, tol), "{}: closest point ({},{}) not {:?}", w(), g.x, g.y, e);
        let (pf, sf) = (s.projection_factor(&c), s.segment_fraction(&c));
        let rt = if end { ft } else { ft * r.abs() };
        ensure!((pf - r).abs() <= rt && (sf - r.clamp(0.0, 1.0)).abs() <= rt, "{}: projection factor {:e} fraction {:e} not {:e}", w(), pf, sf, r);
        x.t(3);
        if o == (0, 0) { ensure!(pf == r && sf == r, "{}: factor of an end point is {}", w(), pf); }
        // the part of the segment covered by the second one
        let (d0, d1) = (dt, dot(sub(p2, a), u));
        let sure = |d: i128| { let v = if end { len - d } else { d }; v == 0 && !end || v.unsigned_abs() as f64 > len as f64 * if end { ft } else { 0.0 } };
        if !((sure(d0) || o == (0, 0)) && (sure(d1) || o2 == (0, 0))) { x.out("too close to tell"); return Ok(()); }
        let g = s.project_line_segment(&sg(p, p2, m));
        x.t(1);
        if (d0 <= 0 && d1 <= 0) || (d0 >= len && d1 >= len) { x.out("no projection"); ensure!(g.is_none(), "{}: projection should be nothing", w()); }
        else {
            x.out("projection");
            let g = g.ok_or_else(|| format!("{}: projection is missing", w()))?;
            let f = |d: i128| if d <= 0 { (a.0 as f64, a.1 as f64) } else if d >= len { (b.0 as f64, b.1 as f64) } else if end { let k = q(len - d, len); (b.0 as f64 - k * u.0 as f64, b.1 as f64 - k * u.1 as f64) } else { along(a, b, q(d, len)) };
            let (e0, e1) = (f(d0), f(d1));
            ensure!(near(&g.p0, e0, tol) && near(&g.p1, e1, tol), "{}: projection ({},{})-({},{}) not {:?}-{:?}", w(), g.p0.x, g.p0.y, g.p1.x, g.p1.y, e0, e1);
        }
        Ok(())
    });
    let nd = k.q(11usize, 16);
    k.family("decimal points and segments", pow(nd, 4), |i, x| {
        let mut d = Dec(i);
        let s = [0; 4].map(|_| DEC[d.take(nd)]);
        decimal(s, x)
    });
    let base: Vec<P> = vec![(0.1, 0.2), (-123.456, 7.7), (1e6 + 0.1, -1e6 / 3.0), (1e-5 / 3.0, 0.9)];
    let dir: Vec<P> = vec![(1.0 / 3.0, 0.7), (-0.9, 0.1), (1e-3, 1.0 / 7.0), (55.5, -33.3)];
    let fac = [(0.4, 1.1), (0.3, 1.7), (-0.7, 0.6), (0.0, 1.0), (0.1, 0.9), (1.0, 2.2), (1.3, 2.0), (0.5, 0.5)];
    let gap = [(0.0, 0.0), (1e-9, -1e-9), (-0.037, 0.01), (0.0, 0.6), (3.3, 3.3), (1e-6, 2.7)];
    let u = k.q(1i64, 2);
    let wd = (2 * u + 1) as usize;
    k.family("nearly parallel decimal segments", (base.len() * dir.len() * fac.len() * gap.len() * 2) as u64 * pow(wd, 4), |i, x| {
        let mut d = Dec(i);
        let (b, v, f, g) = (*d.of(&base), *d.of(&dir), *d.of(&fac), *d.of(&gap));
        let swap = d.bit();
        let at = |t: f64, h: f64| (b.0 + v.0 * t - v.1 * h, b.1 + v.1 * t + v.0 * h);
        let mut o = || d.take(wd) as i64 - u;
        let (q1, q2) = (at(f.0, g.0), at(f.1, g.1));
        let q1 = (ulp(q1.0, o()), ulp(q1.1, o()));
        let q2 = (ulp(q2.0, o()), ulp(q2.1, o()));
        decimal(if swap { [q2, q1, at(1.0, 0.0), b] } else { [b, at(1.0, 0.0), q1, q2] }, x)
    });
    // reflection away from the origin, with the accuracy its formula allows
    k.family("reflections under offset", pow(25, 3) * 3, |i, x| {
        let mut d = Dec(i);
        let (p, a, b) = (lat(d.take(25), 5, -2), lat(d.take(25), 5, -2), lat(d.take(25), 5, -2));
        let m = *d.of(&[Map { ox: 100, oy: -77, s: 1.0 }, Map { ox: 4097, oy: 9999, s: 0.5 }, Map { ox: -3, oy: 1 << 16, s: 4.0 }]);
        let len = sq(sub(b, a));
        if len == 0 { return x.skip(); }
        let (fx, fy) = along(a, b, q(dot(sub(p, a), sub(b, a)), len));
        let e = m.at(2.0 * fx - p.0 as f64, 2.0 * fy - p.1 as f64);
        let g = sg(a, b, m).reflect(&m.c(p));
        x.t(1);
        x.note(|| format!("{:?} in {:?}{:?} at {},{}", p, a, b, m.ox, m.oy));
        let o = (m.ox.abs().max(m.oy.abs()) + 4) as f64;
        ensure!(near(&g, e, 64.0 * f64::EPSILON * o * 16.0 * m.s), "reflection of {:?} in {:?}{:?} offset ({},{}) = ({},{}) not {:?}", p, a, b, m.ox, m.oy, g.x, g.y, e);
        Ok(())
    });
    // points at fractions and offsets, offset segments, and plain measures of a segment
    let fr: Vec<f64> = vec![0.0, 1.0, 0.5, 0.25, -1.0, 2.0, 1.0 / 3.0, -0.125, 1.5, 10.0];
    let of: Vec<f64> = vec![0.0, 1.0, -1.0, 0.5, -2.5, 10.0, 1.0 / 3.0];
    k.family("points along and beside a segment", pow(n * n, 2) * (maps.len() * fr.len() * of.len()) as u64, |i, x| {
        let mut d = Dec(i);
        let (a, b) = (lat(d.take(n * n), n, -3), lat(d.take(n * n), n, -3));
        let m = *d.of(&maps);
        let (f, o) = (*d.of(&fr), *d.of(&of));
        let (s, t) = (sg(a, b, m), m.tol() * f.abs().max(1.0));
        let e = along(a, b, f);
        let w = format!("segment {:?}{:?} fraction {} offset {} at ({},{}) scale {}", a, b, f, o, m.ox, m.oy, m.s);
        x.note(|| w.clone());
        let g = s.point_along(f);
        ensure!(near(&g, m.at(e.0, e.1), t), "{}: point along ({},{}) not {:?}", w, g.x, g.y, m.at(e.0, e.1));
        let len = (sq(sub(b, a)) as f64).sqrt();
        x.t(1);
        if len > 0.0 {
            let (nx, ny) = (-(b.1 - a.1) as f64 / len, (b.0 - a.0) as f64 / len);
            let g = s.point_along_offset(f, o * m.s);
            let e2 = m.at(e.0 + o * nx, e.1 + o * ny);
            ensure!(near(&g, e2, t), "{}: offset point ({},{}) not {:?}", w, g.x, g.y, e2);
            if f == 0.0 {
                let g = s.offset(o * m.s);
                let (e0, e1) = (m.at(a.0 as f64 + o * nx, a.1 as f64 + o * ny), m.at(b.0 as f64 + o * nx, b.1 as f64 + o * ny));
                ensure!(near(&g.p0, e0, t) && near(&g.p1, e1, t), "{}: offset segment ({},{})-({},{}) not {:?}-{:?}", w, g.p0.x, g.p0.y, g.p1.x, g.p1.y, e0, e1);
            }
            x.t(2);
        } else if o == 0.0 {
            let g = s.point_along_offset(f, 0.0);
            ensure!(near(&g, m.at(e.0, e.1), t), "{}: zero offset point ({},{})", w, g.x, g.y);
        }
        if f == 0.0 && o == 0.0 {
            let (p0, p1) = (m.c(a), m.c(b));
            let l = s.get_length();
            ensure!((l - len * m.s.abs()).abs() <= 1e-14 * len * m.s.abs(), "{}: length {}", w, l);
            ensure!(s.is_horizontal() == (a.1 == b.1) && s.is_vertical() == (a.0 == b.0), "{}: horizontal/vertical", w);
            ensure!(s.min_x() == p0.x.min(p1.x) && s.max_x() == p0.x.max(p1.x) && s.min_y() == p0.y.min(p1.y) && s.max_y() == p0.y.max(p1.y), "{}: minima and maxima", w);
            let g = s.mid_point();
            let h = LineSegment::mid_point_coordinates(&p0, &p1);
            let e = along(a, b, 0.5);
            ensure!(near(&g, m.at(e.0, e.1), t) && g.x == h.x && g.y == h.y, "{}: mid point ({},{})", w, g.x, g.y);
            if a != b {
                let (an, ex) = (s.angle(), ((b.1 - a.1) as f64).atan2((b.0 - a.0) as f64));
                ensure!((an - ex).abs() < 1e-12, "{}: angle {} not {}", w, an, ex);
            }
            x.t(8);
        }
        Ok(())
    });
    // projections of a segment on a segment, closest points, intersection
    let n = k.q(5usize, 6);
    let seg_maps: Vec<Map> = if k.thorough { maps.iter().step_by(4).cloned().collect() } else { core.clone() };
    k.family("a segment against a segment", pow(n * n, 4) * seg_maps.len() as u64, |i, x| {
        let mut d = Dec(i);
        let s = [0; 4].map(|_| lat(d.take(n * n), n, -2));
        let m = *d.of(&seg_maps);
        seg_seg(s, m, x)
    });
    let mut every: Vec<Map> = (-145..=145).step_by(k.q(10, 2)).map(|e| Map { ox: 0, oy: 0, s: 2f64.powi(e) }).collect();
    for e in (1..=48).step_by(k.q(6, 2)) { let o = 1i64 << e; every.extend([Map { ox: o, oy: 3, s: 1.0 }, Map { ox: -5, oy: 1 - o, s: 2f64.powi(-40) }, Map { ox: -o, oy: -o, s: 2f64.powi(40) }]); }
    k.family("a segment against a segment at every scale and offset", pow(9, 4) * every.len() as u64, |i, x| {
        let mut d = Dec(i);
        let s = [0; 4].map(|_| lat(d.take(9), 3, -1));
        seg_seg(s, *d.of(&every), x)
    });
    // equality, order, and histories of reverse / normalize / set
    let n = 3usize;
    k.family("equality and order of segments", pow(n * n, 4), |i, x| {
        let mut d = Dec(i);
        let s = [0; 4].map(|_| lat(d.take(n * n), n, -1));
        let m = maps[0];
        let (a, b) = (sg(s[0], s[1], m), sg(s[2], s[3], m));
        x.note(|| format!("{:?}", s));
        ensure!(a.equals(&b) == (s[0] == s[2] && s[1] == s[3]), "equals {:?}", s);
        ensure!(a.equals_topo(&b) == ((s[0] == s[2] && s[1] == s[3]) || (s[0] == s[3] && s[1] == s[2])), "equals_topo {:?}", s);
        let w = (s[0], s[1]).cmp(&(s[2], s[3])) as i32;
        ensure!(a.compare_to(&b).signum() == w, "compare_to {:?} = {} not {}", s, a.compare_to(&b), w);
        x.out(if w == 0 { "equal segments" } else { "different segments" });
        x.t(3);
        Ok(())
    });
    // ordinates that differ in the last bit, in sign of zero or in magnitude
    let ov: Vec<f64> = if k.thorough { vec![0.0, -0.0, 1.0, geosmc::num::ulp(1.0, 1), -1.0, 1e15, 5e-324] } else { vec![0.0, -0.0, 1.0, geosmc::num::ulp(1.0, 1), -1e15] };
    k.family("equality and order in the last bit", pow(ov.len(), 8), |i, x| {
        let mut d = Dec(i);
        let v = [0; 8].map(|_| *d.of(&ov));
        let (a, b) = (LineSegment::new_from_xy(v[0], v[1], v[2], v[3]), LineSegment::new_from_xy(v[4], v[5], v[6], v[7]));
        x.note(|| format!("{:?}", v));
        let same = |j: usize, k: usize| v[j] == v[k] && v[j + 1] == v[k + 1];
        ensure!(a.equals(&b) == (same(0, 4) && same(2, 6)), "equals {:?}", v);
        ensure!(a.equals_topo(&b) == ((same(0, 4) && same(2, 6)) || (same(0, 6) && same(2, 4))), "equals_topo {:?}", v);
        let w = (0..4).map(|j| v[j].partial_cmp(&v[j + 4]).unwrap() as i32).find(|&o| o != 0).unwrap_or(0);
        ensure!(a.compare_to(&b).signum() == w, "compare_to {:?} = {} not {}", v, a.compare_to(&b), w);
        ensure!(a.is_horizontal() == (v[1] == v[3]) && a.is_vertical() == (v[0] == v[2]), "horizontal or vertical {:?}", v);
        let mut n = a;
        n.normalize();
        let turned = (v[2], v[3]).partial_cmp(&(v[0], v[1])).unwrap() as i32 == -1;
        let e = if turned { [v[2], v[3], v[0], v[1]] } else { [v[0], v[1], v[2], v[3]] };
        ensure!([n.p0.x, n.p0.y, n.p1.x, n.p1.y].map(f64::to_bits) == e.map(f64::to_bits), "normalize {:?} gives ({:e},{:e})-({:e},{:e})", v, n.p0.x, n.p0.y, n.p1.x, n.p1.y);
        x.t(6);
        Ok(())
    });
    let depth = k.q(5usize, 6);
    let vals = [((0, 0), (2, 1)), ((2, 1), (0, 0)), ((1, -1), (1, 2)), ((1, 2), (1, -1)), ((3, 3), (3, 3))];
    k.family("histories of one segment", (vals.len() as u64) * pow(2 + vals.len() * 2, depth), |i, x| {
        let mut d = Dec(i);
        let m = maps[0];
        let (mut a, mut b) = *d.of(&vals);
        let mut s = LineSegment::new_from_xy(a.0 as f64, a.1 as f64, b.0 as f64, b.1 as f64);
        let mut h = vec![];
        for _ in 0..depth {
            let o = d.take(2 + vals.len() * 2);
            h.push(o);
            match o {
                0 => { s.reverse(); std::mem::swap(&mut a, &mut b); }
                1 => { s.normalize(); if b < a { std::mem::swap(&mut a, &mut b); } }
                o => {
                    let v = vals[(o - 2) % vals.len()];
                    a = v.0; b = v.1;
                    if o - 2 < vals.len() { s.set_coordinates(&m.c(a), &m.c(b)); } else { s.set_coordinates_from_line_segment(sg(a, b, m)); }
                }
            }
            let (g0, g1) = (s.get_coordinate(0), s.get_coordinate(1));
            ensure!(near(&g0, m.at(a.0 as f64, a.1 as f64), 0.0) && near(&g1, m.at(b.0 as f64, b.1 as f64), 0.0), "after {:?}: ({},{})-({},{}) not {:?}{:?}", h, g0.x, g0.y, g1.x, g1.y, a, b);
            x.t(1);
        }
        let c = LineSegment::new_from_line_segment(&s);
        ensure!(c.equals(&s), "copy differs after {:?}", h);
        x.note(|| format!("{:?}", h));
        Ok(())
    });
    // the same histories on end points with four ordinates: what is kept is kept whole
    let depth = k.q(5usize, 7);
    k.family("end points with four ordinates", 3 * pow(5, depth), |i, x| {
        let mut d = Dec(i);
        let full = |j: usize, o: I| { let v = [o.0 as f64, o.1 as f64, 10.0 + j as f64, 20.0 + j as f64]; (Coordinate::new_xyzm(v[0], v[1], v[2], v[3]), v) };
        let (a, b) = *d.of(&[((0, 0), (2, 1)), ((2, 1), (0, 0)), ((1, -1), (1, 2))]);
        let ((ca, mut va), (cb, mut vb)) = (full(1, a), full(2, b));
        let mut s = LineSegment::new_from_coordinates(&ca, &cb);
        let all = |c: &Coordinate| [c.x, c.y, c.get_z(), c.get_m()];
        let mut h = vec![];
        for step in 0..depth {
            let o = d.take(5);
            h.push(o);
            match o {
                0 => { s.reverse(); std::mem::swap(&mut va, &mut vb); }
                1 => { s.normalize(); if (vb[0], vb[1]) < (va[0], va[1]) { std::mem::swap(&mut va, &mut vb); } }
                2 => s = LineSegment::new_from_line_segment(&s),
                3 => s = LineSegment::new_from_coordinates(&s.get_coordinate(0), &s.get_coordinate(1)),
                _ => { let (c, v) = full(3 + step, a); s = LineSegment::new_from_coordinates(&c, &s.get_coordinate(1)); va = v; }
            }
            ensure!(all(&s.get_coordinate(0)) == va && all(&s.get_coordinate(1)) == vb && all(&s.p0) == va && all(&s.p1) == vb, "after {:?}: {:?}-{:?} not {:?}-{:?}", h, all(&s.p0), all(&s.p1), va, vb);
            x.t(1);
        }
        x.note(|| format!("{:?}", h));
        if (va[0], va[1]) == (vb[0], vb[1]) { return Ok(()); }
        // a point projected on the segment keeps what is not its position; one that is an end point is left as it is
        for (j, (p, v)) in [full(7, a), full(8, b), full(9, (1, 1)), full(6, (-3, 5))].into_iter().enumerate() {
            let g = s.project_coordinate(&p);
            let r = s.project_coordinate_with_projection_factor(&p, 0.25);
            let f = s.reflect(&p);
            for g in [&g, &r, &f] { ensure!(g.get_z() == v[2] && g.get_m() == v[3], "{:?}: point {} moved to {:?}", h, j, all(g)); }
            x.t(3);
        }
        // the part of another segment: what was cut off takes over the end point it was cut at
        let u = (vb[0] - va[0], vb[1] - va[1]);
        let cand = [full(11, (-2, -1)), full(12, (1, 1)), full(13, (5, 3)), full(14, (0, 3)), full(15, (2, -1)), full(16, (1, -3))];
        let len = u.0 * u.0 + u.1 * u.1;
        for (p, pv) in &cand { for (r, rv) in &cand {
            let at = |v: &[f64; 4]| (v[0] - va[0]) * u.0 + (v[1] - va[1]) * u.1;
            let w = |v: &[f64; 4]| { let t = at(v); if t < 0.0 { va } else if t > len { vb } else { *v } };
            if [pv, rv].iter().any(|v| at(v) == 0.0 || at(v) == len) { continue; }
            if let Some(g) = s.project_line_segment(&LineSegment::new_from_coordinates(p, r)) {
                let (w0, w1) = (w(pv), w(rv));
                ensure!((g.p0.get_z(), g.p0.get_m(), g.p1.get_z(), g.p1.get_m()) == (w0[2], w0[3], w1[2], w1[3]), "{:?}: {:?}-{:?} projected to {:?}-{:?}", h, pv, rv, all(&g.p0), all(&g.p1));
                x.t(1);
            }
        } }
        Ok(())
    });
    // end points of every magnitude are kept to the bit, by every way of setting them
    k.family("end points of every magnitude", 2046 * 2 * 2 * 4 * 4, |i, x| {
        let mut d = Dec(i);
        let e = d.take(2046) as u64 + 1;
        let neg = d.bit();
        let frac = if d.bit() { 0x999999999999a } else { 0 };
        let (at, other) = (d.take(4), *d.of(&[0.0, 1.0, 0.1, -3e300]));
        let mut v = [other; 4];
        v[at] = f64::from_bits(e << 52 | frac) * if neg { -1.0 } else { 1.0 };
        if at < 3 { v[at + 1] = 7.5; }
        x.note(|| format!("{:?}", v));
        let (a, b) = (Coordinate::new_xy(v[0], v[1]), Coordinate::new_xy(v[2], v[3]));
        let is = |s: &LineSegment, w: [f64; 4], by: &str| -> Res {
            let (g0, g1) = (s.get_coordinate(0), s.get_coordinate(1));
            ensure!([s.p0.x, s.p0.y, s.p1.x, s.p1.y].map(f64::to_bits) == w.map(f64::to_bits) && [g0.x, g0.y, g1.x, g1.y].map(f64::to_bits) == w.map(f64::to_bits), "{} of {:?}: ({:e},{:e})-({:e},{:e})", by, w, s.p0.x, s.p0.y, s.p1.x, s.p1.y);
            Ok(())
        };
        let c = LineSegment::new_from_coordinates(&a, &b);
        is(&c, v, "construction")?;
        let mut s = LineSegment::default();
        is(&s, [0.0; 4], "default")?;
        s.set_coordinates(&a, &b);
        is(&s, v, "setting the default")?;
        is(&LineSegment::new_from_xy(v[0], v[1], v[2], v[3]), v, "construction from ordinates")?;
        is(&LineSegment::new_from_line_segment(&c), v, "copy")?;
        let mut s = LineSegment::new_from_xy(9.0, 8.0, 7.0, 6.0);
        s.set_coordinates(&a, &b);
        is(&s, v, "setting")?;
        let mut s = LineSegment::new_from_xy(9.0, 8.0, 7.0, 6.0);
        s.set_coordinates_from_line_segment(LineSegment::new_from_xy(v[0], v[1], v[2], v[3]));
        is(&s, v, "setting from a segment")?;
        let back = [v[2], v[3], v[0], v[1]];
        s.reverse();
        is(&s, back, "reversal")?;
        s.normalize();
        is(&s, if (v[2], v[3]) < (v[0], v[1]) { back } else { v }, "normal form")?;
        ensure!(c.min_x() == v[0].min(v[2]) && c.max_x() == v[0].max(v[2]) && c.min_y() == v[1].min(v[3]) && c.max_y() == v[1].max(v[3]), "extent of {:?}", v);
        ensure!(c.is_horizontal() == (v[1] == v[3]) && c.is_vertical() == (v[0] == v[2]), "{:?} is horizontal {} vertical {}", v, c.is_horizontal(), c.is_vertical());
        x.t(9);
        Ok(())
    });
    // nearly parallel segments: which ends are closest is decided by a sliver
    let sl: Vec<f64> = (k.q(24, 12)..=40).step_by(k.q(4, 1)).map(|e| 2f64.powi(-e)).collect();
    let nd = sl.len() * 2 + 1;
    k.family("closest points of nearly parallel segments", pow(nd, 4) * 4 * 5, |i, x| {
        let mut d = Dec(i);
        let mut g = || { let j = d.take(nd); if j == 0 { 0.0 } else { let v = sl[(j - 1) / 2]; if j % 2 == 1 { v } else { -v } } };
        let e = [g(), g(), g(), g()];
        let turn = d.take(4);
        let (l, off) = *d.of(&[(4.0, 0.0), (4.0, 1.0), (64.0, 3.0), (4.0, -1.0), (64.0, -3.0)]);
        let mv = |p: P| { let (a, b) = p; match turn { 0 => (a, b), 1 => (-b, a), 2 => (b, a), _ => (a, -b) } };
        let q4 = [mv((0.0, e[0])), mv((l, e[1])), mv((off, 1.0 + e[2])), mv((l - off, 1.0 + e[3]))];
        let seg = |a: P, b: P| LineSegment::new_from_xy(a.0, a.1, b.0, b.1);
        let v = seg(q4[0], q4[1]).closest_points(&seg(q4[2], q4[3]));
        x.note(|| format!("segments {:?}", q4));
        x.t(1);
        // these never meet, so the least distance is that of an end point; differences and products are of small numbers
        let pd = |p: P, a: P, b: P| {
            let (ux, uy, px, py) = (b.0 - a.0, b.1 - a.1, p.0 - a.0, p.1 - a.1);
            let (len, dt) = (ux * ux + uy * uy, px * ux + py * uy);
            if dt <= 0.0 { px.hypot(py) } else if dt >= len { (p.0 - b.0).hypot(p.1 - b.1) } else { (px * uy - py * ux).abs() / len.sqrt() }
        };
        let all = [pd(q4[2], q4[0], q4[1]), pd(q4[3], q4[0], q4[1]), pd(q4[0], q4[2], q4[3]), pd(q4[1], q4[2], q4[3])];
        let w = all.iter().cloned().fold(f64::INFINITY, f64::min);
        let gd = (v[0].x - v[1].x).hypot(v[0].y - v[1].y);
        ensure!((gd - w).abs() <= 32.0 * f64::EPSILON * w, "segments {:?}: closest points are {:e} apart, not {:e}", q4, gd, w);
        x.out(if all[0] == w { "first end" } else { "another end" });
        Ok(())
    });
    k.finish()
}
