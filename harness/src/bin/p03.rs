// P03 Segment intersection (RobustLineIntersector)
use geos_rs::verif::*;
use geosmc::{ensure, exact::*, geo::*, mc::*, num::*};

fn c(p: P) -> Coordinate { Coordinate::new_xy(p.0, p.1) }
fn cz(p: P, z: f64) -> Coordinate { Coordinate::new_xyz(p.0, p.1, z) }
const NONE: i32 = RobustLineIntersector::NO_INTERSECTION;
const POINT: i32 = RobustLineIntersector::POINT_INTERSECTION;
const COLL: i32 = RobustLineIntersector::COLLINEAR_INTERSECTION;

/// What two segments share.
#[derive(Clone, Debug, PartialEq)]
enum Meet { Nothing, Vertex(I), Cross(i128, i128, i128), Overlap(I, I), Degenerate(I) }

fn meet(a: I, b: I, e: I, f: I) -> Meet {
    if !segs_meet(a, b, e, f) { return Meet::Nothing; }
    if a == b { return Meet::Degenerate(a); }
    if e == f { return Meet::Degenerate(e); }
    if orient_i(a, b, e) == 0 && orient_i(a, b, f) == 0 {
        let mut v: Vec<I> = vec![];
        for (p, s, t) in [(a, e, f), (b, e, f), (e, a, b), (f, a, b)] { if on_seg(p, s, t) && !v.contains(&p) { v.push(p); } }
        return if v.len() == 1 { Meet::Vertex(v[0]) } else { v.sort(); Meet::Overlap(v[0], v[1]) };
    }
    for (p, s, t) in [(a, e, f), (b, e, f), (e, a, b), (f, a, b)] { if on_seg(p, s, t) { return Meet::Vertex(p); } }
    let (x, y, w) = lines_cross(a, b, e, f).unwrap();
    Meet::Cross(x, y, w)
}

/// map integer model points to doubles: (p + off) * scale
#[derive(Clone, Copy)]
struct Map { ox: f64, oy: f64, s: f64 }
impl Map { fn f(&self, p: I) -> P { ((p.0 as f64 + self.ox) * self.s, (p.1 as f64 + self.oy) * self.s) } }
const ID: Map = Map { ox: 0.0, oy: 0.0, s: 1.0 };

fn eq(a: &Coordinate, p: P) -> bool { a.x == p.0 && a.y == p.1 }

/// run the real intersector and compare with the model; li may have any history
fn judge(li: &mut RobustLineIntersector, s: [I; 4], m: Map, x: &mut Ctx) -> Res {
    let p: Vec<Coordinate> = s.iter().map(|&q| c(m.f(q))).collect();
    li.compute_intersection_4(&p[0], &p[1], &p[2], &p[3]);
    let w = meet(s[0], s[1], s[2], s[3]);
    let (has, i0, i1) = (li.has_intersection(), li.get_intersection(0), li.get_intersection(1));
    // the same object asked again for the classification: must not change the answer
    let code = li.compute_intersect(&p[0], &p[1], &p[2], &p[3]);
    let (j0, j1) = (li.get_intersection(0), li.get_intersection(1));
    x.t(2);
    ensure!(has == (w != Meet::Nothing), "{:?}: has_intersection {} but segments share {:?}", s, has, w);
    ensure!((code != NONE) == has, "{:?}: result code {} but has_intersection {}", s, code, has);
    if has { ensure!(same(i0.x, j0.x) && same(i0.y, j0.y), "{:?}: point 0 changes on recomputation", s); }
    let on_both = |q: &Coordinate| -> bool { s.iter().any(|&v| eq(q, m.f(v)) && on_seg(v, s[0], s[1]) && on_seg(v, s[2], s[3])) };
    match w {
        Meet::Nothing => x.out("none"),
        Meet::Vertex(v) => {
            x.out("vertex");
            ensure!(code == POINT, "{:?}: code {} for a single common point {:?}", s, code, v);
            ensure!(eq(&i0, m.f(v)), "{:?}: point ({},{}) but the common vertex is {:?}", s, i0.x, i0.y, m.f(v));
        }
        Meet::Cross(nx, ny, d) => {
            x.out("proper");
            ensure!(code == POINT, "{:?}: code {} for a proper crossing", s, code);
            let ex = (Dy::int(nx).add(&Dy::int(d).mul(&Dy::new(m.ox))), Dy::int(ny).add(&Dy::int(d).mul(&Dy::new(m.oy))));
            let g = (Rat::new(ex.0.mul(&Dy::new(m.s)), Dy::int(d)).f64(), Rat::new(ex.1.mul(&Dy::new(m.s)), Dy::int(d)).f64());
            let big = p.iter().map(|q| q.x.abs().max(q.y.abs())).fold(0.0, f64::max);
            let ws = (d as f64 * m.s * m.s).abs();
            let tol = 4.0 * f64::EPSILON * big + (big * big * big / ws) * 2f64.powi(-98);
            ensure!((i0.x - g.0).abs() <= tol && (i0.y - g.1).abs() <= tol, "{:?} (mapped {:?}): point ({:e},{:e}) but the segments cross at {:?}", s, p.iter().map(|q| (q.x, q.y)).collect::<Vec<_>>(), i0.x, i0.y, g);
            for k in [0, 2] {
                let (a, b) = (p[k], p[k + 1]);
                ensure!(i0.x >= a.x.min(b.x) && i0.x <= a.x.max(b.x) && i0.y >= a.y.min(b.y) && i0.y <= a.y.max(b.y), "{:?}: point ({:e},{:e}) lies outside the envelope of segment {}", s, i0.x, i0.y, k / 2);
            }
            floating(&p, &i0, x)?;
        }
        Meet::Overlap(u, v) => {
            x.out("overlap");
            ensure!(code == COLL, "{:?}: code {} for overlapping segments", s, code);
            let (u, v) = (m.f(u), m.f(v));
            ensure!((eq(&i0, u) && eq(&i1, v)) || (eq(&i0, v) && eq(&i1, u)), "{:?}: points ({},{}) ({},{}) but the overlap is {:?}..{:?}", s, i0.x, i0.y, i1.x, i1.y, u, v);
            ensure!(same(i1.x, j1.x) && same(i1.y, j1.y), "{:?}: point 1 changes on recomputation", s);
        }
        Meet::Degenerate(_) => {
            x.out("degenerate");
            ensure!(on_both(&i0), "{:?}: point ({},{}) is not a common point", s, i0.x, i0.y);
            if code == COLL { ensure!(on_both(&i1), "{:?}: point 1 ({},{}) is not a common point", s, i1.x, i1.y); }
        }
    }
    Ok(())
}

/// like judge, where rounding may spoil the computed crossing: it then has to be replaced by the nearest end point
/// a floating precision model changes nothing
fn floating(p: &[Coordinate], g: &Coordinate, x: &mut Ctx) -> Res {
    let mut lf = RobustLineIntersector::default();
    lf.set_precision_model(PrecisionModel::default());
    lf.compute_intersection_4(&p[0], &p[1], &p[2], &p[3]);
    let f = lf.get_intersection(0);
    x.t(1);
    ensure!(lf.has_intersection() && same(f.x, g.x) && same(f.y, g.y), "{:?}: point ({:e},{:e}) but ({:e},{:e}) under a floating precision model", p.iter().map(|q| (q.x, q.y)).collect::<Vec<_>>(), g.x, g.y, f.x, f.y);
    Ok(())
}
fn rough(s: [I; 4], f: impl Fn(I) -> P, x: &mut Ctx) -> Res {
    let m = s.map(&f);
    let p = m.map(c);
    let mut li = RobustLineIntersector::default();
    li.compute_intersection_4(&p[0], &p[1], &p[2], &p[3]);
    x.t(1);
    let w = meet(s[0], s[1], s[2], s[3]);
    x.note(|| format!("{:?} mapped to {:?}: {:?}", s, m, w));
    ensure!(li.has_intersection() == (w != Meet::Nothing), "{:?}: has_intersection {} but the segments share {:?}", m, li.has_intersection(), w);
    let (a, b) = (li.get_intersection(0), li.get_intersection(1));
    match w {
        Meet::Nothing | Meet::Degenerate(_) => {}
        Meet::Vertex(v) => ensure!(eq(&a, f(v)), "{:?}: point ({:e},{:e}) but the common vertex is {:?}", m, a.x, a.y, f(v)),
        Meet::Overlap(u, v) => {
            let (u, v) = (f(u), f(v));
            ensure!((eq(&a, u) && eq(&b, v)) || (eq(&a, v) && eq(&b, u)), "{:?}: points ({:e},{:e}) ({:e},{:e}) but the overlap is {:?}..{:?}", m, a.x, a.y, b.x, b.y, u, v);
        }
        Meet::Cross(..) => {
            let inside = |g: &Coordinate| (0..2).all(|k| { let (a, b) = (&p[2 * k], &p[2 * k + 1]); g.x >= a.x.min(b.x) && g.x <= a.x.max(b.x) && g.y >= a.y.min(b.y) && g.y <= a.y.max(b.y) });
            floating(&p, &a, x)?;
            let raw = Intersection::intersection(&p[0], &p[1], &p[2], &p[3]);
            if raw.is_some_and(|r| inside(&r)) {
                x.out("crossing inside both envelopes");
                ensure!(inside(&a), "{:?}: point ({:e},{:e}) lies outside the segments' envelopes", m, a.x, a.y);
                return Ok(());
            }
            x.out("crossing replaced by an end point");
            let e = li.nearest_endpoint(&p[0], &p[1], &p[2], &p[3]);
            ensure!(a.x == e.x && a.y == e.y, "{:?}: point ({:e},{:e}) in place of the uncomputable crossing is not the nearest end point ({:e},{:e})", m, a.x, a.y, e.x, e.y);
        }
    }
    Ok(())
}

/// any four points: decided by exact orientation, the crossing located by exact division
fn decimal(s: [P; 4], x: &mut Ctx) -> Res {
    if s[0] == s[1] || s[2] == s[3] { return x.skip(); }
    let mut o = [0; 4];
    for (j, (u, v, w)) in [(0, 1, 2), (0, 1, 3), (2, 3, 0), (2, 3, 1)].into_iter().enumerate() {
        match orient_claimed(s[u], s[v], s[w]) { Some(g) => o[j] = g, None => return x.skip() }
    }
    if o == [0; 4] { return x.skip(); }
    let inb = |p: P, a: P, b: P| p.0 >= a.0.min(b.0) && p.0 <= a.0.max(b.0) && p.1 >= a.1.min(b.1) && p.1 <= a.1.max(b.1);
    let touch: Vec<P> = [(2, 0, 1, o[0]), (3, 0, 1, o[1]), (0, 2, 3, o[2]), (1, 2, 3, o[3])].iter().filter(|(p, a, b, g)| *g == 0 && inb(s[*p], s[*a], s[*b])).map(|(p, ..)| s[*p]).collect();
    let want = !touch.is_empty() || (o[0] * o[1] < 0 && o[2] * o[3] < 0);
    let z = [7.25, -20.1, 300.0, 1.0 / 3.0];
    let p: Vec<Coordinate> = (0..4).map(|k| cz(s[k], z[k])).collect();
    let mut li = RobustLineIntersector::default();
    let code = li.compute_intersect(&p[0], &p[1], &p[2], &p[3]);
    li.compute_intersection_4(&p[0], &p[1], &p[2], &p[3]);
    x.t(2);
    ensure!(li.has_intersection() == want && code == if want { POINT } else { NONE }, "{:?}: has_intersection {}, code {} but the segments share {}", s, li.has_intersection(), code, want);
    if !want { x.out("apart"); return Ok(()); }
    let g = li.get_intersection(0);
    if !touch.is_empty() {
        x.out("touching");
        ensure!(touch.iter().any(|p| eq(&g, *p)), "{:?}: point ({:e},{:e}) is none of the touching vertices {:?}", s, g.x, g.y, touch);
        ensure!((0..4).any(|k| eq(&g, s[k]) && g.z == z[k]), "{:?}: Z {} at a vertex", s, g.z);
        return Ok(());
    }
    x.out("crossing");
    let d = |a: f64, b: f64| Dy::new(a).sub(&Dy::new(b));
    let (ux, uy, vx, vy) = (d(s[1].0, s[0].0), d(s[1].1, s[0].1), d(s[3].0, s[2].0), d(s[3].1, s[2].1));
    let w = ux.mul(&vy).sub(&uy.mul(&vx));
    let t = d(s[2].0, s[0].0).mul(&vy).sub(&d(s[2].1, s[0].1).mul(&vx));
    let at = |b: f64, u: &Dy| Rat::new(Dy::new(b).mul(&w).add(&u.mul(&t)), w.clone()).f64();
    let (ex, ey, ws) = (at(s[0].0, &ux), at(s[0].1, &uy), w.abs().f64());
    let big = s.iter().map(|q| q.0.abs().max(q.1.abs())).fold(0.0, f64::max);
    let tol = 4.0 * f64::EPSILON * big + (big * big * big / ws) * 2f64.powi(-96);
    for k in [0, 2] { ensure!(inb((g.x, g.y), s[k], s[k + 1]), "{:?}: point ({:e},{:e}) lies outside the envelope of segment {}", s, g.x, g.y, k / 2); }
    ensure!((g.x - ex).abs() <= tol && (g.y - ey).abs() <= tol, "{:?}: point ({:e},{:e}) but the segments cross at ({:e},{:e})", s, g.x, g.y, ex, ey);
    // Z: the mean of the two interpolations
    let len = |a: P, b: P| (a.0 - b.0).abs().max((a.1 - b.1).abs());
    let zw = (zi(&g, &p[0], &p[1]) + zi(&g, &p[2], &p[3])) / 2.0;
    let zt = 16.0 * f64::EPSILON * 300.0 * (1.0 + (big + tol / f64::EPSILON) / len(s[0], s[1]).min(len(s[2], s[3])));
    ensure!((g.z - zw).abs() <= zt, "{:?}: Z {} at the crossing, interpolated {}", s, g.z, zw);
    // in any order of the segments and of their end points
    for r in [[1, 0, 2, 3], [0, 1, 3, 2], [2, 3, 0, 1], [3, 2, 1, 0]] {
        let h = { li.compute_intersection_4(&p[r[0]], &p[r[1]], &p[r[2]], &p[r[3]]); li.get_intersection(0) };
        ensure!(li.has_intersection() && (h.x - ex).abs() <= tol && (h.y - ey).abs() <= tol && (h.z - zw).abs() <= zt, "{:?} in order {:?}: point ({:e},{:e},{}) but the segments cross at ({:e},{:e},{})", s, r, h.x, h.y, h.z, ex, ey, zw);
        x.t(1);
    }
    floating(&p, &g, x)
}

/// linear interpolation of Z at q along ab, one missing end taken from the other
fn zi(q: &Coordinate, a: &Coordinate, b: &Coordinate) -> f64 {
    if a.z.is_nan() { return b.z; }
    if b.z.is_nan() { return a.z; }
    let l = (b.x - a.x) * (b.x - a.x) + (b.y - a.y) * (b.y - a.y);
    if l == 0.0 { return a.z; }
    let t = ((q.x - a.x) * (b.x - a.x) + (q.y - a.y) * (b.y - a.y)) / l;
    a.z + t * (b.z - a.z)
}

/// Z and M of the intersection points of two lattice segments under a map
fn z_values(s: [I; 4], mask: usize, zv: &[f64; 4], zmap: Map, x: &mut Ctx) -> Res {
    let p: Vec<Coordinate> = (0..4).map(|j| { let q = zmap.f(s[j]); Coordinate::new_xyzm(q.0, q.1, if mask >> j & 1 == 1 { zv[j] } else { f64::NAN }, if mask == 9 && j > 1 { f64::NAN } else { 0.1 + j as f64 }) }).collect();
    // rounding of the point and of the interpolation
    let ext = |a: &Coordinate, b: &Coordinate| (a.x - b.x).abs().max((a.y - b.y).abs());
    let short = [ext(&p[0], &p[1]), ext(&p[2], &p[3])].into_iter().filter(|l| *l > 0.0).fold(f64::INFINITY, f64::min);
    let far = p.iter().map(|q| q.x.abs().max(q.y.abs())).fold(0.0, f64::max);
    let zmax = p.iter().filter(|q| !q.z.is_nan()).map(|q| q.z.abs()).fold(0.0, f64::max);
    let tol = 16.0 * f64::EPSILON * zmax * (1.0 + if short.is_finite() { far / short } else { 0.0 });
    let mut li = RobustLineIntersector::default();
    li.compute_intersection_4(&p[0], &p[1], &p[2], &p[3]);
    x.t(1);
    let w = meet(s[0], s[1], s[2], s[3]);
    x.note(|| format!("{:?} Z mask {:04b}: {:?}", s, mask, w));
    let check = |g: &Coordinate| -> Res {
        let ms: Vec<f64> = (0..4).filter(|&j| p[j].x == g.x && p[j].y == g.y).map(|j| p[j].m).collect();
        if !ms.is_empty() { ensure!(ms.iter().any(|m| same(*m, g.m)), "{:?}: M {} at ({},{}) but the vertices there have {:?}", s, g.m, g.x, g.y, ms); }
        // Z of a vertex at the point, if any has one
        let own: Vec<f64> = (0..4).filter(|&j| p[j].x == g.x && p[j].y == g.y && !p[j].z.is_nan()).map(|j| p[j].z).collect();
        if !own.is_empty() { ensure!(own.contains(&g.z), "{:?} mask {:04b}: Z {} at ({},{}) but the vertices there have {:?}", s, mask, g.z, g.x, g.y, own); return Ok(()); }
        let z = [zi(g, &p[0], &p[1]), zi(g, &p[2], &p[3])];
        let is_vertex = |j: usize| p[j].x == g.x && p[j].y == g.y;
        // an end point without Z takes it from the other segment; a crossing averages both
        let want: Vec<f64> = if is_vertex(0) || is_vertex(1) || is_vertex(2) || is_vertex(3) {
            let mut v = vec![];
            if is_vertex(0) || is_vertex(1) { v.push(z[1]); }
            if is_vertex(2) || is_vertex(3) { v.push(z[0]); }
            if v.len() == 2 { v.push(f64::NAN); }
            v
        } else { vec![if z[0].is_nan() { z[1] } else if z[1].is_nan() { z[0] } else { (z[0] + z[1]) / 2.0 }] };
        ensure!(want.iter().any(|v| same(g.z, *v) || (g.z - v).abs() <= tol), "{:?} mask {:04b}: Z {} at ({},{}) expected one of {:?}", s, mask, g.z, g.x, g.y, want);
        Ok(())
    };
    match w {
        Meet::Nothing | Meet::Degenerate(_) => {}
        Meet::Overlap(..) => { check(&li.get_intersection(0))?; check(&li.get_intersection(1))?; }
        Meet::Cross(..) => { x.out("Z of crossing"); check(&li.get_intersection(0))? }
        Meet::Vertex(_) => { x.out("Z at vertex"); check(&li.get_intersection(0))? }
    }
    Ok(())
}

fn main() {
    let mut k = Check::new("P03");
    let n = k.q(6usize, 8);
    k.family("segment pairs on a lattice", pow(n * n, 4), |i, x| {
        let mut d = Dec(i);
        let s = [0; 4].map(|_| lat(d.take(n * n), n, -2));
        x.note(|| format!("{:?} share {:?}", s, meet(s[0], s[1], s[2], s[3])));
        judge(&mut RobustLineIntersector::default(), s, ID, x)
    });
    let maps: Vec<Map> = vec![
        Map { ox: 0.0, oy: 0.0, s: 0.1 }, Map { ox: 0.0, oy: 0.0, s: 2f64.powi(-60) }, Map { ox: 0.0, oy: 0.0, s: 2f64.powi(60) },
        Map { ox: 1e6 + 1.0, oy: -3e6, s: 1.0 }, Map { ox: 2f64.powi(40), oy: 2f64.powi(41) + 1.0, s: 0.5 }, Map { ox: -(2f64.powi(46)), oy: 7.0, s: 1.0 }, Map { ox: 1e8, oy: 1e8, s: -1.0 },
    ];
    // scale 0.1 is not exact: used only where the orientation is claimed
    let n = k.q(4usize, 5);
    k.family("segment pairs under offset and scale", pow(n * n, 4) * maps.len() as u64, |i, x| {
        let mut d = Dec(i);
        let s = [0; 4].map(|_| lat(d.take(n * n), n, -1));
        let m = *d.of(&maps);
        if m.s == 0.1 {
            // multiples of 0.1 are rounded: judge only configurations whose topology survives rounding
            let f: Vec<P> = s.iter().map(|&q| m.f(q)).collect();
            for (a, b, e) in [(0, 1, 2), (0, 1, 3), (2, 3, 0), (2, 3, 1)] {
                if orient_claimed(f[a], f[b], f[e]) != Some(orient_i(s[a], s[b], s[e])) { return x.skip(); }
            }
        }
        x.note(|| format!("{:?} offset ({},{}) scale {}", s, m.ox, m.oy, m.s));
        judge(&mut RobustLineIntersector::default(), s, m, x)
    });
    // every power-of-two scale, every power-of-two offset
    let mut every: Vec<Map> = (-150..=150).step_by(k.q(6, 1)).map(|e| Map { ox: 0.0, oy: 0.0, s: 2f64.powi(e) }).collect();
    for e in (0..=47).step_by(k.q(5, 2)) { let o = 2f64.powi(e); every.extend([Map { ox: o, oy: 0.0, s: 1.0 }, Map { ox: 3.0, oy: -o - 1.0, s: 1.0 }, Map { ox: -o + 1.0, oy: o, s: 2f64.powi(-20) }]); }
    let (n, lo) = (3usize, -1i64);
    k.family("segment pairs at every scale and offset", pow(n * n, 4) * every.len() as u64, |i, x| {
        let mut d = Dec(i);
        let s = [0; 4].map(|_| lat(d.take(n * n), n, lo));
        let m = *d.of(&every);
        x.note(|| format!("{:?} offset ({},{}) scale {:e}", s, m.ox, m.oy, m.s));
        judge(&mut RobustLineIntersector::default(), s, m, x)
    });
    // long, nearly parallel or barely touching segments
    let dirs: Vec<I> = vec![(1 << 10, 1), (1000, 1001), ((1 << 20) - 1, 1 << 19), (-(1 << 26) - 3, 1 << 25), (99999, -33333), (1 << 24, 0)];
    let cuts: Vec<i64> = vec![-3, 0, 3, 6, 8, 9];
    let u = k.q(3i64, 5);
    let w = (2 * u + 1) as usize;
    k.family("long nearly parallel segments", (dirs.len() * cuts.len() * cuts.len() * w * w * w * w * 2) as u64, |i, x| {
        let mut d = Dec(i);
        let e = *d.of(&dirs);
        let (t0, t1) = (*d.of(&cuts), *d.of(&cuts));
        let mut o = || d.take(w) as i64 - u;
        let q1 = (e.0 * t0 / 6 + o(), e.1 * t0 / 6 + o());
        let q2 = (e.0 * t1 / 6 + o(), e.1 * t1 / 6 + o());
        let s = if d.bit() { [(0, 0), e, q1, q2] } else { [q2, q1, e, (0, 0)] };
        x.note(|| format!("{:?} share {:?}", s, meet(s[0], s[1], s[2], s[3])));
        judge(&mut RobustLineIntersector::default(), s, ID, x)
    });
    // a small lattice under area-preserving shears with consecutive Fibonacci columns, far from the origin
    let fib = |n: usize| -> (i64, i64) { let mut f = (1, 0); for _ in 0..n { f = (f.0 + f.1, f.0); } f };
    let mut shears: Vec<[I; 3]> = vec![];
    for n in (20..=72).step_by(k.q(4, 1)) { let (u, v) = (fib(n), fib(n - 1)); for o in [(0, 0), (1 << 51, 1 << 50), (-(1 << 51) + 1, 3), ((1 << 51) - 1, -(1 << 51) + 1)] { shears.push([u, v, o]); } }
    let n = k.q(3usize, 4);
    k.family("segment pairs under extreme shears", pow(n * n, 4) * shears.len() as u64 * 2, |i, x| {
        let mut d = Dec(i);
        let s = [0; 4].map(|_| lat(d.take(n * n), n, -1));
        let [u, v, o] = *d.of(&shears);
        let flip = d.bit();
        rough(s, |p| { let r = (p.0 * u.0 + p.1 * v.0 + o.0, p.0 * u.1 + p.1 * v.1 + o.1); ID.f(if flip { (r.1, r.0) } else { r }) }, x)
    });
    // scales at which the arithmetic of crossings overflows or underflows
    let far: Vec<i32> = (-400..=400).step_by(k.q(20, 4)).collect();
    let n = 4usize;
    k.family("segment pairs at extreme scales", pow(n * n, 4) * far.len() as u64, |i, x| {
        let mut d = Dec(i);
        let s = [0; 4].map(|_| lat(d.take(n * n), n, -1));
        let sc = 2f64.powi(*d.of(&far));
        rough(s, |p| (p.0 as f64 * sc, p.1 as f64 * sc), x)
    });
    // last-bit neighbours of touching configurations: decision only
    let conf: Vec<[P; 4]> = vec![
        [(0.0, 0.0), (24.0, 24.0), (12.0, 12.0), (30.0, 0.0)], [(1.0, 1.0), (3.0, 2.0), (2.0, 1.5), (2.5, 7.0)],
        [(0.5, 0.5), (0.5, 8.0), (0.5, 4.0), (9.0, 4.0)], [(-1e6, 1e6), (1e6, -1e6), (1e6, -1e6), (2e6, 0.0)], [(0.0, 0.0), (16.0, 8.0), (8.0, 4.0), (32.0, 16.0)],
        [(4.0, 4.0), (4.0, 4.0), (4.0, 4.0), (9.0, 9.0)],
    ];
    let r = k.q(121usize, 501);
    k.family("last-bit neighbours of touching segments", (conf.len() * r * r * 4) as u64, |i, x| {
        let mut d = Dec(i);
        let (a, b) = (d.take(r) as i64 - r as i64 / 2, d.take(r) as i64 - r as i64 / 2);
        let mut s = *d.of(&conf);
        s[2] = (ulp(s[2].0, a), ulp(s[2].1, b));
        if d.bit() { s.swap(0, 1); }
        if d.bit() { s.swap(2, 3); }
        let mut o = [0; 4];
        for (j, (u, v, w)) in [(0, 1, 2), (0, 1, 3), (2, 3, 0), (2, 3, 1)].into_iter().enumerate() {
            match orient_claimed(s[u], s[v], s[w]) { Some(g) => o[j] = g, None => return x.skip() }
        }
        let inb = |p: P, a: P, b: P| p.0 >= a.0.min(b.0) && p.0 <= a.0.max(b.0) && p.1 >= a.1.min(b.1) && p.1 <= a.1.max(b.1);
        let t = [(2, 0, 1, o[0]), (3, 0, 1, o[1]), (0, 2, 3, o[2]), (1, 2, 3, o[3])];
        let touch: Vec<P> = t.iter().filter(|(p, a, b, g)| *g == 0 && inb(s[*p], s[*a], s[*b])).map(|(p, ..)| s[*p]).collect();
        let want = !touch.is_empty() || (o[0] * o[1] < 0 && o[2] * o[3] < 0);
        let mut li = RobustLineIntersector::default();
        li.compute_intersection_4(&c(s[0]), &c(s[1]), &c(s[2]), &c(s[3]));
        x.t(1);
        x.out(if !want { "apart" } else if touch.is_empty() { "crossing" } else { "touching" });
        x.note(|| format!("{:?} -> {}", s, want));
        ensure!(li.has_intersection() == want, "{:?}: has_intersection {} should be {}", s, li.has_intersection(), want);
        if want {
            let g = li.get_intersection(0);
            if !touch.is_empty() { ensure!(touch.iter().any(|p| eq(&g, *p)), "{:?}: point ({},{}) is none of the touching vertices {:?}", s, g.x, g.y, touch); }
            else { ensure!(inb((g.x, g.y), s[0], s[1]) && inb((g.x, g.y), s[2], s[3]), "{:?}: point ({},{}) outside an envelope", s, g.x, g.y); floating(&s.map(c), &g, x)?; }
        }
        Ok(())
    });
    // decimal points, whose differences and products floating point rounds
    let nd = k.q(14usize, 16);
    k.family("segments between decimal points", pow(nd, 4), |i, x| {
        let mut d = Dec(i);
        let s = [0; 4].map(|_| DEC[d.take(nd)]);
        x.note(|| format!("{:?}", s));
        decimal(s, x)
    });
    let base: Vec<P> = vec![(0.1, 0.2), (-123.456, 7.7), (1e6 + 0.1, -1e6 / 3.0), (1e-5 / 3.0, 0.9)];
    let dir: Vec<P> = vec![(1.0 / 3.0, 0.7), (-0.9, 0.1), (1e-3, 1.0 / 7.0), (55.5, -33.3)];
    let fac = [(0.4, 1.1), (0.3, 1.7), (-0.7, 0.6), (0.0, 1.0), (0.1, 0.9), (1.0, 2.2)];
    let gap = [(0.0, 0.0), (1e-9, -1e-9), (-0.037, 0.01), (0.0, 0.6)];
    let u = k.q(2i64, 5);
    let wd = (2 * u + 1) as usize;
    k.family("nearly parallel segments between decimal points", (base.len() * dir.len() * fac.len() * gap.len() * 2) as u64 * pow(wd, 4), |i, x| {
        let mut d = Dec(i);
        let (b, v, f, g) = (*d.of(&base), *d.of(&dir), *d.of(&fac), *d.of(&gap));
        let swap = d.bit();
        let at = |t: f64, h: f64| (b.0 + v.0 * t - v.1 * h, b.1 + v.1 * t + v.0 * h);
        let mut o = || d.take(wd) as i64 - u;
        let (q1, q2) = (at(f.0, g.0), at(f.1, g.1));
        let q1 = (ulp(q1.0, o()), ulp(q1.1, o()));
        let q2 = (ulp(q2.0, o()), ulp(q2.1, o()));
        let s = if swap { [q2, q1, at(1.0, 0.0), b] } else { [b, at(1.0, 0.0), q1, q2] };
        x.note(|| format!("{:?}", s));
        decimal(s, x)
    });
    // every pattern of present and missing Z
    let n = k.q(3usize, 4);
    let zm: Vec<Map> = vec![ID, Map { ox: 100.0, oy: -1023.0, s: 1.0 }, Map { ox: -2.0, oy: 0.0, s: 2f64.powi(-20) }, Map { ox: 0.0, oy: 5.0, s: 2f64.powi(12) }, Map { ox: 0.0, oy: 0.0, s: 33554433.0 }];
    let zs = [[7.0, -20.0, 300.0, 5000.0], [4.0, 4.0, 4.0, -8.0], [0.0, 10.0, 0.0, -10.0], [1e-3, -2e-3, 1e6, 2.5e5],
        [1.0 / 3.0, 0.1, -0.7, 1e9 + 1.0 / 3.0], [1.0, 1.0 + 8e-13, 2.0 + 3e-13, 2.0], [1e-200, 3e-200, -7e-200, 1e-210], [16777217.0, 33554435.0, -50331651.0, 16777219.0]];
    k.family("Z values of intersection points", pow(n * n, 4) * 16 * (zs.len() * zm.len()) as u64, |i, x| {
        let mut d = Dec(i);
        let s = [0; 4].map(|_| lat(d.take(n * n), n, 0));
        let mask = d.take(16);
        z_values(s, mask, d.of(&zs), *d.of(&zm), x)
    });
    // Z of every magnitude on segments of every magnitude
    let st = k.q(24usize, 6);
    let mut zz: Vec<(Map, f64)> = vec![];
    for e in (-120..=120).step_by(st) { zz.push((Map { ox: 0.0, oy: 0.0, s: 2f64.powi(e) }, 1.0)); zz.push((ID, 2f64.powi(4 * e))); zz.push((Map { ox: 1.0, oy: -1.0, s: 2f64.powi(e) * 1.1 }, 2f64.powi(e) * 0.7)); zz.push((Map { ox: -1.0, oy: 0.0, s: 2f64.powi(e) }, 2f64.powi(-e) * 0.3)); }
    k.family("Z values at every magnitude", pow(9, 4) * 4 * zz.len() as u64, |i, x| {
        let mut d = Dec(i);
        let s = [0; 4].map(|_| lat(d.take(9), 3, 0));
        let mask = *d.of(&[15usize, 3, 13, 6]);
        let (m, zf) = *d.of(&zz);
        z_values(s, mask, &[7.0 * zf, -20.0 * zf, 33.0 * zf, 50.0 * zf], m, x)
    });
    // precision models: crossing points land on the grid cell of the true point
    let n = k.q(4usize, 5);
    let pms: Vec<(f64, f64)> = vec![(1.0, 1.0), (10.0, 0.1), (1000.0, 0.001), (-0.25, 0.25), (-2.0, 2.0), (0.5, 2.0), (-0.1, 0.1)];
    k.family("crossing points made precise", pow(n * n, 4) * (pms.len() + 2) as u64, |i, x| {
        let mut d = Dec(i);
        let s = [0; 4].map(|_| lat(d.take(n * n), n, -1));
        let m = d.take(pms.len() + 2);
        let mut li = RobustLineIntersector::default();
        let (pm, grid) = if m < pms.len() { (PrecisionModel::new_with_scale(pms[m].0), pms[m].1) }
            else if m == pms.len() { (PrecisionModel::new_with_type(PrecisionModelType::FloatingSingle), 0.0) } else { (PrecisionModel::default(), 0.0) };
        li.set_precision_model(pm);
        let w = meet(s[0], s[1], s[2], s[3]);
        x.note(|| format!("{:?} model {}: {:?}", s, m, w));
        if let Meet::Cross(nx, ny, dd) = w {
            let p: Vec<Coordinate> = s.iter().map(|&q| c(ID.f(q))).collect();
            li.compute_intersection_4(&p[0], &p[1], &p[2], &p[3]);
            x.t(1);
            ensure!(li.has_intersection(), "{:?}: crossing lost under precision model {}", s, m);
            let g = li.get_intersection(0);
            for (v, e) in [(g.x, q(nx, dd)), (g.y, q(ny, dd))] {
                if grid > 0.0 {
                    ensure!((v / grid - (v / grid).round()).abs() < 1e-9, "{:?}: {} is not on the grid of model {:?}", s, v, pms[m]);
                    ensure!((v - e).abs() <= grid / 2.0 * (1.0 + 1e-9) + 1e-12, "{:?}: {} is not the grid value nearest to {} in model {:?}", s, v, e, pms[m]);
                } else if m == pms.len() { ensure!(v == v as f32 as f64 && (v - e).abs() <= 1e-7 * e.abs().max(1e-3), "{:?}: {} is not {} in single precision", s, v, e); }
                else { ensure!((v - e).abs() <= 1e-14, "{:?}: {} is not {}", s, v, e); }
            }
            x.out("precise crossing");
            Ok(())
        } else { judge(&mut li, s, ID, x) }
    });
    // reuse: an intersector that has already answered other questions answers as a fresh one
    let reps: Vec<[I; 4]> = vec![
        [(0, 0), (4, 4), (0, 4), (4, 0)], [(0, 0), (4, 0), (1, 0), (3, 0)], [(0, 0), (4, 0), (4, 0), (8, 1)], [(0, 0), (4, 0), (0, 1), (4, 1)],
        [(1, 1), (1, 1), (0, 0), (3, 3)], [(0, 0), (3, 1), (0, 1), (3, 0)], [(0, 0), (2, 0), (2, 0), (4, 0)], [(3, 0), (0, 0), (1, 0), (5, 0)],
        [(0, 0), (4, 4), (2, 2), (5, 0)], [(0, 0), (0, 0), (0, 0), (0, 0)], [(5, 5), (6, 7), (-5, 5), (-6, 7)], [(0, 0), (7, 3), (1, 3), (6, -2)],
        [(100, 100), (104, 104), (100, 104), (104, 100)], [(0, 2), (4, 2), (2, 0), (2, 4)], [(-3, -2), (3, 3), (-3, 3), (2, -2)],
    ];
    let len = k.q(4usize, 5);
    k.family("histories of one reused intersector", pow(reps.len() + 3, len), |i, x| {
        let mut d = Dec(i);
        let mut li = RobustLineIntersector::default();
        let mut hist = vec![];
        for _ in 0..len {
            let o = d.take(reps.len() + 3);
            hist.push(o);
            if o < reps.len() { judge(&mut li, reps[o], ID, x).map_err(|e| format!("after {:?}: {}", hist, e))?; }
            else {
                let (p, w) = [((2, 1), true), ((4, 2), true), ((2, 2), false)][o - reps.len()];
                li.compute_intersection_3(&c(ID.f(p)), &c((0.0, 0.0)), &c((4.0, 2.0)));
                x.t(1);
                ensure!(li.has_intersection() == w, "after {:?}: point {:?} on segment is {}", hist, p, li.has_intersection());
            }
        }
        x.note(|| format!("{:?}", hist));
        Ok(())
    });
    // reuse with Z values and changing precision models: every answer is that of a fresh intersector
    let zmode = 3usize;
    let nops = reps.len() * zmode + 2 * 3 + 3;
    let len = k.q(3usize, 4);
    k.family("histories with Z and precision models", pow(nops, len), |i, x| {
        let mut d = Dec(i);
        let mut li = RobustLineIntersector::default();
        let mut pm: Option<PrecisionModel> = None;
        let mut hist = vec![];
        for step in 0..len {
            let o = d.take(nops);
            hist.push(o);
            if o >= reps.len() * zmode + 6 {
                let m = [PrecisionModel::new_with_scale(1.0), PrecisionModel::new_with_scale(-4.0), PrecisionModel::new_with_type(PrecisionModelType::Floating)][o - reps.len() * zmode - 6];
                pm = Some(m);
                li.set_precision_model(m);
                continue;
            }
            let mut fresh = RobustLineIntersector::default();
            if let Some(m) = pm { fresh.set_precision_model(m); }
            if o >= reps.len() * zmode {
                let (t, on) = ((o - reps.len() * zmode) % 3, (o - reps.len() * zmode) / 3 == 0);
                let p = cz((2.0, if on { 1.0 } else { 2.0 }), t as f64);
                li.compute_intersection_3(&p, &c((0.0, 0.0)), &c((4.0, 2.0)));
                x.t(1);
                ensure!(li.has_intersection() == on, "after {:?}: point on segment is {}", hist, li.has_intersection());
                continue;
            }
            let (r, z) = (reps[o % reps.len()], o / reps.len());
            let p: Vec<Coordinate> = (0..4).map(|j| match z { 0 => c(ID.f(r[j])), 1 => cz(ID.f(r[j]), [3.0, 11.0, -40.0, 100.0][j]), _ => cz(ID.f(r[j]), if j % 2 == step % 2 { 64.0 } else { f64::NAN }) }).collect();
            li.compute_intersection_4(&p[0], &p[1], &p[2], &p[3]);
            fresh.compute_intersection_4(&p[0], &p[1], &p[2], &p[3]);
            x.t(1);
            ensure!(li.has_intersection() == fresh.has_intersection(), "after {:?}: has_intersection {} of {:?} differs from a fresh intersector's", hist, li.has_intersection(), r);
            if li.has_intersection() {
                let (a, b) = (li.get_intersection(0), fresh.get_intersection(0));
                ensure!(same(a.x, b.x) && same(a.y, b.y) && same(a.z, b.z) && same(a.m, b.m), "after {:?}: point {:?} of {:?} but a fresh intersector gives {:?}", hist, (a.x, a.y, a.z), r, (b.x, b.y, b.z));
                if matches!(meet(r[0], r[1], r[2], r[3]), Meet::Overlap(..)) {
                    let (a, b) = (li.get_intersection(1), fresh.get_intersection(1));
                    ensure!(same(a.x, b.x) && same(a.y, b.y) && same(a.z, b.z), "after {:?}: second point {:?} of {:?} but a fresh intersector gives {:?}", hist, (a.x, a.y, a.z), r, (b.x, b.y, b.z));
                }
                if z == 0 { ensure!(li.get_intersection(0).z.is_nan(), "after {:?}: Z {} though no input of {:?} has one", hist, li.get_intersection(0).z, r); }
            }
        }
        x.note(|| format!("{:?}", hist));
        Ok(())
    });
    // the fallback point of an uncomputable crossing: the end point nearest to the other segment
    let n = k.q(4usize, 5);
    let at: Vec<Map> = vec![ID, Map { ox: 0.0, oy: 0.0, s: 2f64.powi(-70) }, Map { ox: 0.0, oy: 0.0, s: 2f64.powi(33) }, Map { ox: -1025.0, oy: 16777217.0, s: 1.0 }];
    k.family("nearest end point", pow(n * n, 4) * at.len() as u64, |i, x| {
        let mut d = Dec(i);
        let s = [0; 4].map(|_| lat(d.take(n * n), n, -1));
        let m = *d.of(&at);
        let p: Vec<Coordinate> = s.iter().map(|&q| c(m.f(q))).collect();
        let g = RobustLineIntersector::default().nearest_endpoint(&p[0], &p[1], &p[2], &p[3]);
        x.t(1);
        let ds = [dist2_ps(s[0], s[2], s[3]), dist2_ps(s[1], s[2], s[3]), dist2_ps(s[2], s[0], s[1]), dist2_ps(s[3], s[0], s[1])];
        let best = ds.iter().map(|v| q(v.0, v.1)).fold(f64::INFINITY, f64::min);
        x.note(|| format!("{:?} -> ({},{})", s, g.x, g.y));
        ensure!((0..4).any(|j| eq(&g, m.f(s[j])) && close(q(ds[j].0, ds[j].1), best, 1e-12, 1.0)), "nearest end point of {:?} is ({},{})", s, g.x, g.y);
        Ok(())
    });
    // point against segment
    let n = k.q(5usize, 8);
    k.family("point against segment", pow(n * n, 3) * every.len() as u64, |i, x| {
        let mut d = Dec(i);
        let (p, a, b) = (lat(d.take(n * n), n, -2), lat(d.take(n * n), n, -2), lat(d.take(n * n), n, -2));
        let m = *d.of(&every);
        let mut li = RobustLineIntersector::default();
        li.compute_intersection_3(&c(m.f(p)), &c(m.f(a)), &c(m.f(b)));
        x.t(1);
        x.note(|| format!("{:?} on {:?}{:?}", p, a, b));
        ensure!(li.has_intersection() == on_seg(p, a, b), "point {:?} on segment {:?}{:?}: {}", p, a, b, li.has_intersection());
        Ok(())
    });
    k.finish()
}
