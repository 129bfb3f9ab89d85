// P22 Distances in space
use geos_rs::verif::*;
use geosmc::{ensure, exact::{Dy, Rat}, mc::*, num::*};

type V = (i64, i64, i64);
fn sub(a: V, b: V) -> V { (a.0 - b.0, a.1 - b.1, a.2 - b.2) }
fn dot(a: V, b: V) -> i128 { a.0 as i128 * b.0 as i128 + a.1 as i128 * b.1 as i128 + a.2 as i128 * b.2 as i128 }
fn cross(a: V, b: V) -> (i128, i128, i128) {
    let (a, b) = ((a.0 as i128, a.1 as i128, a.2 as i128), (b.0 as i128, b.1 as i128, b.2 as i128));
    (a.1 * b.2 - a.2 * b.1, a.2 * b.0 - a.0 * b.2, a.0 * b.1 - a.1 * b.0)
}
/// squared distances as fractions
fn ps(p: V, a: V, b: V) -> (i128, i128) {
    let (u, w) = (sub(b, a), sub(p, a));
    let (l, t) = (dot(u, u), dot(u, w));
    if l == 0 || t <= 0 { return (dot(w, w), 1); }
    if t >= l { let w = sub(p, b); return (dot(w, w), 1); }
    (dot(w, w) * l - t * t, l)
}
fn ss(a: V, b: V, c: V, d: V) -> (i128, i128) {
    let mut m = ps(a, c, d);
    for f in [ps(b, c, d), ps(c, a, b), ps(d, a, b)] { if f.0 * m.1 < m.0 * f.1 { m = f; } }
    // both closest points inside: the distance of the two lines
    let (u, v, w) = (sub(b, a), sub(d, c), sub(c, a));
    let n = cross(u, v);
    let nn = n.0 * n.0 + n.1 * n.1 + n.2 * n.2;
    if nn > 0 {
        // a + s u and c + t v; s = (w x v).n / nn, t = (w x u).n / nn
        let f = |p: (i128, i128, i128)| p.0 * n.0 + p.1 * n.1 + p.2 * n.2;
        let (s, t) = (f(cross(w, v)), f(cross(w, u)));
        if s >= 0 && s <= nn && t >= 0 && t <= nn {
            let h = w.0 as i128 * n.0 + w.1 as i128 * n.1 + w.2 as i128 * n.2;
            m = (h * h, nn);
        }
    }
    m
}
/// the same for long segments
fn ps_f(p: V, a: V, b: V) -> f64 {
    let (u, w) = (sub(b, a), sub(p, a));
    let (l, t) = (dot(u, u), dot(u, w));
    if l == 0 || t <= 0 { return (dot(w, w) as f64).sqrt(); }
    if t >= l { let w = sub(p, b); return (dot(w, w) as f64).sqrt(); }
    let c = cross(u, w);
    ((c.0 as f64).powi(2) + (c.1 as f64).powi(2) + (c.2 as f64).powi(2)).sqrt() / (l as f64).sqrt()
}
fn ss_f(a: V, b: V, c: V, d: V) -> f64 {
    let m = ps_f(a, c, d).min(ps_f(b, c, d)).min(ps_f(c, a, b)).min(ps_f(d, a, b));
    let (u, v, w) = (sub(b, a), sub(d, c), sub(c, a));
    let n = cross(u, v);
    let nn = n.0 * n.0 + n.1 * n.1 + n.2 * n.2;
    if nn == 0 { return m; }
    let f = |p: (i128, i128, i128)| p.0 * n.0 + p.1 * n.1 + p.2 * n.2;
    let (s, t) = (f(cross(w, v)), f(cross(w, u)));
    if s < 0 || s > nn || t < 0 || t > nn { return m; }
    (w.0 as i128 * n.0 + w.1 as i128 * n.1 + w.2 as i128 * n.2).unsigned_abs() as f64 / (nn as f64).sqrt()
}
#[derive(Clone, Copy, Debug)]
struct Map { o: V, s: f64 }
impl Map {
    fn c(&self, p: V) -> Coordinate { Coordinate::new_xyz((p.0 + self.o.0) as f64 * self.s, (p.1 + self.o.1) as f64 * self.s, (p.2 + self.o.2) as f64 * self.s) }
    fn m(&self, p: V) -> Coordinate { Coordinate::new_xyzm((p.0 + self.o.0) as f64 * self.s, (p.1 + self.o.1) as f64 * self.s, (p.2 + self.o.2) as f64 * self.s, 1e9) }
    fn tol(&self) -> f64 { self.s * (1.0 + self.o.0.abs().max(self.o.1.abs()).max(self.o.2.abs()) as f64) * 2e-14 }
}
const MAPS: [Map; 5] = [Map { o: (0, 0, 0), s: 1.0 }, Map { o: (1000, -500, 20000), s: 1.0 }, Map { o: (0, 0, 0), s: 9.5367431640625e-7 }, Map { o: (-1, 5, 0), s: 1.2676506002282294e30 }, Map { o: (3, 3, -3), s: 0.125 }];

fn seg_pair(a: V, b: V, c: V, d: V, m: &Map, x: &mut Ctx) -> Res {
    let f = ss(a, b, c, d);
    let w = (f.0 as f64 / f.1 as f64).sqrt() * m.s;
    x.note(|| format!("{:?}-{:?} {:?}-{:?} {:?} distance {}", a, b, c, d, m, w));
    let n = cross(sub(b, a), sub(d, c));
    x.out(if a == b || c == d { "degenerate" } else if n == (0, 0, 0) { "parallel" } else if f.0 == 0 { "meeting" } else { "skew or apart" });
    let tol = m.tol() * 10.0 + w * 1e-14;
    let (pa, pb, pc, pd) = (m.c(a), m.c(b), m.m(c), m.c(d));
    for (k, g) in [CGAlgorithms3D::distance_segment_segment(&pa, &pb, &pc, &pd), CGAlgorithms3D::distance_segment_segment(&pd, &pc, &pa, &pb),
        CGAlgorithms3D::distance_segment_segment(&pb, &pa, &pc, &pd), CGAlgorithms3D::distance_segment_segment(&pa, &pb, &pd, &pc)].iter().enumerate() {
        x.t(1);
        ensure!((g - w).abs() <= tol && *g >= 0.0, "distance of {:?}-{:?} and {:?}-{:?} {:?} (order {}) = {:e} not {:e}", a, b, c, d, m, k, g, w);
    }
    Ok(())
}

// the same for points off the lattice, with exact dyadic numbers
type Q = (f64, f64, f64);
type E = [Dy; 3];
fn esub(a: Q, b: Q) -> E { let d = |a: f64, b: f64| Dy::new(a).sub(&Dy::new(b)); [d(a.0, b.0), d(a.1, b.1), d(a.2, b.2)] }
fn edot(a: &E, b: &E) -> Dy { a[0].mul(&b[0]).add(&a[1].mul(&b[1])).add(&a[2].mul(&b[2])) }
fn ecross(a: &E, b: &E) -> E {
    let f = |i: usize, j: usize| a[i].mul(&b[j]).sub(&a[j].mul(&b[i]));
    [f(1, 2), f(2, 0), f(0, 1)]
}
fn eps_(p: Q, a: Q, b: Q) -> Rat {
    let (u, w) = (esub(b, a), esub(p, a));
    let (l, t) = (edot(&u, &u), edot(&u, &w));
    if l.is_zero() || t.sign() <= 0 { return Rat::dy(edot(&w, &w)); }
    if t >= l { let w = esub(p, b); return Rat::dy(edot(&w, &w)); }
    Rat::new(edot(&w, &w).mul(&l).sub(&t.sq()), l)
}
fn ess(a: Q, b: Q, c: Q, d: Q) -> Rat {
    let m = [eps_(a, c, d), eps_(b, c, d), eps_(c, a, b), eps_(d, a, b)].into_iter().min().unwrap();
    let (u, v, w) = (esub(b, a), esub(d, c), esub(c, a));
    let n = ecross(&u, &v);
    let nn = edot(&n, &n);
    if nn.is_zero() { return m; }
    let (s, t) = (edot(&ecross(&w, &v), &n), edot(&ecross(&w, &u), &n));
    if s.sign() < 0 || s > nn || t.sign() < 0 || t > nn { return m; }
    Rat::new(edot(&w, &n).sq(), nn)
}
fn decimal(q: [Q; 4], x: &mut Ctx) -> Res {
    let c = |q: Q| Coordinate::new_xyz(q.0, q.1, q.2);
    let p = q.map(c);
    x.note(|| format!("{:?}", q));
    let mut ext = 0.0f64;
    for a in &q { for b in &q { ext = ext.max((a.0 - b.0).abs()).max((a.1 - b.1).abs()).max((a.2 - b.2).abs()); } }
    let eps = f64::EPSILON;
    let big = q.iter().map(|q| q.0.abs().max(q.1.abs()).max(q.2.abs())).fold(0.0, f64::max);
    let w = ess(q[0], q[1], q[2], q[3]).f64().sqrt();
    for r in [[0, 1, 2, 3], [1, 0, 2, 3], [0, 1, 3, 2], [3, 2, 0, 1]] {
        let g = CGAlgorithms3D::distance_segment_segment(&p[r[0]], &p[r[1]], &p[r[2]], &p[r[3]]);
        x.t(1);
        x.note(|| format!("{:?}", q));
        ensure!((g - w).abs() <= 16.0 * eps * big, "distance of {:?}-{:?} and {:?}-{:?} (order {:?}) = {:e} not {:e}", q[0], q[1], q[2], q[3], r, g, w);
    }
    let w = eps_(q[0], q[2], q[3]).f64().sqrt();
    let g = CGAlgorithms3D::distance_point_segment(&p[0], &p[2], &p[3]);
    ensure!((g - w).abs() <= 16.0 * eps * big, "distance of {:?} from {:?}-{:?} = {:e} not {:e}", q[0], q[2], q[3], g, w);
    let w = eps_(q[0], q[1], q[1]).f64().sqrt();
    for g in [CGAlgorithms3D::distance(&p[0], &p[1]), p[0].distance_3d(&p[1])] { ensure!((g - w).abs() <= 4.0 * eps * w, "distance of {:?} and {:?} = {:e} not {:e}", q[0], q[1], g, w); }
    x.t(3);
    Ok(())
}

fn main() {
    let mut k = Check::new("P22");
    let g = |q: usize, n: usize| ((q % n) as i64, (q / n % n) as i64, (q / n / n) as i64);
    let n = k.q(4usize, 5);
    let c = n * n * n;
    k.family(&format!("all segment pairs on {}x{}x{}", n, n, n), pow(c, 4), |i, x| {
        let mut d = Dec(i);
        let (a, b, e, f) = (g(d.take(c), n), g(d.take(c), n), g(d.take(c), n), g(d.take(c), n));
        seg_pair(a, b, e, f, &MAPS[0], x)
    });
    // one segment fixed in a larger box: far interior crossings
    let n = k.q(6usize, 9);
    let c = n * n * n;
    let fixed: Vec<(V, V)> = vec![((0, 0, 0), (4, 4, 4)), ((0, 0, 0), (4, 0, 0)), ((0, 4, 1), (4, 0, 3)), ((2, 2, 0), (2, 2, 4)), ((1, 2, 3), (3, 3, 3))];
    k.family("one segment against all in a larger box", fixed.len() as u64 * pow(c, 2), |i, x| {
        let mut d = Dec(i);
        let (a, b) = *d.of(&fixed);
        let (e, f) = (g(d.take(c), n), g(d.take(c), n));
        seg_pair(a, b, e, f, &MAPS[0], x)
    });
    // thin boxes make almost parallel pairs of long segments
    let u = k.q(1i64, 2);
    let w = (2 * u + 1) as usize;
    let dirs: Vec<V> = vec![(60, 100, 40), (0, 200, 1), (128, 128, 128), (99, 0, -101)];
    k.family("almost parallel long segments", dirs.len() as u64 * pow(w, 6), |i, x| {
        let mut d = Dec(i);
        let v = *d.of(&dirs);
        let mut o = || d.take(w) as i64 - u;
        let a = (o(), o(), o());
        let b = (v.0 + o(), v.1 + o(), v.2 + o());
        seg_pair((0, 0, 0), v, a, b, &MAPS[0], x)?;
        seg_pair((0, 0, 0), v, (a.0 * 3, a.1 * 5, a.2 * 2), b, &MAPS[(i % 5) as usize], x)
    });
    let n = k.q(2usize, 3);
    let c = n * n * n;
    k.family("segment pairs under offset and scale", pow(c, 4) * (MAPS.len() as u64 - 1), |i, x| {
        let mut d = Dec(i);
        let m = MAPS[1 + d.take(MAPS.len() - 1)];
        let (a, b, e, f) = (g(d.take(c), n), g(d.take(c), n), g(d.take(c), n), g(d.take(c), n));
        seg_pair(a, b, e, f, &m, x)
    });
    // every power-of-two scale, every power-of-two offset
    let mut every: Vec<Map> = (-150..=150).step_by(k.q(10, 2)).map(|e| Map { o: (0, 0, 0), s: 2f64.powi(e) }).collect();
    for e in (0..=40).step_by(k.q(4, 1)) { let o = 1i64 << e; every.extend([Map { o: (o, 0, 0), s: 1.0 }, Map { o: (3, -o, o), s: 2f64.powi(-30) }, Map { o: (1, 1 - o, o - 3), s: 1.0 }]); }
    k.family("segment pairs at every scale and offset", pow(8, 4) * every.len() as u64, |i, x| {
        let mut d = Dec(i);
        let m = *d.of(&every);
        let mut p = || { let v = g(d.take(8), 2); (v.0 * 3, v.1 * 2, v.2 * 5 - v.0) };
        let (a, b, e, f) = (p(), p(), p(), p());
        seg_pair(a, b, e, f, &m, x)?;
        for (p, s, t) in [(a, e, f), (f, a, b)] {
            let q = ps(p, s, t);
            let w = (q.0 as f64 / q.1 as f64).sqrt() * m.s;
            let r = CGAlgorithms3D::distance_point_segment(&m.c(p), &m.c(s), &m.m(t));
            x.t(1);
            ensure!((r - w).abs() <= m.tol() + w * 1e-14 && r >= 0.0, "distance of {:?} from {:?}-{:?} {:?} = {:e} not {:e}", p, s, t, m, r, w);
        }
        let w = (dot(sub(a, e), sub(a, e)) as f64).sqrt() * m.s;
        let r = CGAlgorithms3D::distance(&m.c(a), &m.c(e));
        x.t(1);
        ensure!((r - w).abs() <= m.tol(), "3D distance of {:?} and {:?} {:?} = {:e} not {:e}", a, e, m, r, w);
        Ok(())
    });
    let dec: [Q; 12] = [(0.1, 0.2, 0.3), (-0.3, 0.7, 1.0 / 3.0), (1.1, -2.3, 1e-3), (1e-3, 3.3, -7.7), (123.456, -78.9, 55.1), (1e4 + 0.1, 0.3, 1e3 / 7.0), (-7e-9, 1.0 / 3.0, 2.2), (0.30000000000000004, 0.1, 0.6), (5.55, -1e3 / 7.0, 0.3), (-2.2, -1.7, 0.9), (1.1, 4.9, -0.3), (0.3, 0.6, 0.9)];
    let nd = k.q(10usize, 12);
    k.family("segments between decimal points", pow(nd, 4), |i, x| {
        let mut d = Dec(i);
        decimal([0; 4].map(|_| dec[d.take(nd)]), x)
    });
    let base: Vec<Q> = vec![(0.1, 0.2, 0.3), (-123.456, 7.7, 0.6), (1e3 + 0.1, -1e3 / 3.0, 1e3 / 7.0)];
    let dir: Vec<Q> = vec![(1.0 / 3.0, 0.7, 0.9), (-0.9, 0.1, 0.3), (1e-1, 1.0 / 7.0, -2.1), (55.5, -33.3, 77.7)];
    let fac = [(0.4, 1.1), (0.3, 1.7), (-0.7, 0.6), (0.0, 1.0), (1.0, 2.2), (1.3, 2.0), (-0.4, 1.3)];
    let gap = [(0.0, 0.0), (1e-9, -1e-9), (-0.037, 0.01), (0.0, 0.6), (3.3, 3.3), (1e-5, -2e-5)];
    let u = k.q(1i64, 2);
    let wd = (2 * u + 1) as usize;
    k.family("nearly parallel decimal segments", (base.len() * dir.len() * fac.len() * gap.len() * 4) as u64 * pow(wd, 4), |i, x| {
        let mut d = Dec(i);
        let (b, v, f, g) = (*d.of(&base), *d.of(&dir), *d.of(&fac), *d.of(&gap));
        let (h, rise) = (d.bit(), d.bit());
        let at = |t: f64, g: f64| (b.0 + v.0 * t - v.1 * g, b.1 + v.1 * t + v.0 * g, b.2 + v.2 * t + if h { g } else { 0.0 });
        let mut o = || d.take(wd) as i64 - u;
        let (mut q1, mut q2) = (at(f.0, g.0), at(f.1, g.1));
        q1.0 = ulp(q1.0, o());
        q1.2 = ulp(q1.2, o());
        q2.1 = ulp(q2.1, o());
        q2.0 = ulp(q2.0, o());
        if rise { q1.2 += 0.7; q2.2 += 0.7; }
        decimal([b, at(1.0, 0.0), q1, q2], x)
    });
    // where a long segment ends decides down to its rounding error
    let dirs: Vec<V> = vec![(1, 0, 0), (0, 0, -1), (1, 1, 1), (3, -5, 2), (-1, 2, 0), (-2, -3, -7)];
    let ways: Vec<V> = vec![(0, 0, 0), (0, 0, 6), (0, 5, 0), (-6, 0, 0), (4, -3, 5), (-2, 6, 3), (1, 4, -6)];
    let exps: Vec<i64> = if k.thorough { (10..=44).collect() } else { vec![12, 25, 36, 41, 44] };
    let js = [0i64, 1, 2, 3, 5, 9];
    let of = k.q(5usize, 7);
    k.family("near the ends of long segments", (dirs.len() * exps.len() * 2 * of * of * of * js.len() * ways.len()) as u64, |i, x| {
        let mut d = Dec(i);
        let (e, v, w) = (*d.of(&exps), *d.of(&dirs), *d.of(&ways));
        let (a, b) = ((0, 0, 0), (v.0 << e, v.1 << e, v.2 << e));
        let end = d.bit();
        let o = g(d.take(of * of * of), of);
        let h = of as i64 / 2;
        let j = *d.of(&js);
        let at = if end { b } else { a };
        let p = (at.0 + ((o.0 - h) << j), at.1 + ((o.1 - h) << j), at.2 + ((o.2 - h) << j));
        let q = (p.0 + w.0, p.1 + w.1, p.2 + w.2);
        let ext = [a, b, p, q].iter().map(|v| v.0.abs().max(v.1.abs()).max(v.2.abs())).max().unwrap() as f64;
        let m = &MAPS[0];
        let (ca, cb, cp, cq) = (m.c(a), m.c(b), m.m(p), m.c(q));
        x.note(|| format!("{:?}{:?} and {:?}{:?}", a, b, p, q));
        if w == (0, 0, 0) {
            let t = ps_f(p, a, b);
            for (k, g) in [CGAlgorithms3D::distance_point_segment(&cp, &ca, &cb), CGAlgorithms3D::distance_point_segment(&cp, &cb, &ca), CGAlgorithms3D::distance_segment_segment(&cp, &cq, &ca, &cb)].iter().enumerate() {
                // measured from the far end the place has the rounding error of the whole length
                let tol = 16.0 * f64::EPSILON * if end || k > 0 { ext } else { 1.0 };
                ensure!((g - t).abs() <= 1e-13 * t + tol && *g >= 0.0, "distance of {:?} from {:?}{:?} (form {}) = {:e} not {:e}", p, a, b, k, g, t);
            }
            x.t(3);
            return Ok(());
        }
        let c = cross(sub(b, a), w);
        let s = ((c.0 as f64).powi(2) + (c.1 as f64).powi(2) + (c.2 as f64).powi(2)) / (dot(sub(b, a), sub(b, a)) as f64 * dot(w, w) as f64);
        if s < 0.05 { return x.skip(); }
        let t = ss_f(a, b, p, q);
        x.out(if t == 0.0 { "meeting" } else { "skew or apart" });
        for (k, g) in [CGAlgorithms3D::distance_segment_segment(&ca, &cb, &cp, &cq), CGAlgorithms3D::distance_segment_segment(&cq, &cp, &ca, &cb), CGAlgorithms3D::distance_segment_segment(&cb, &ca, &cp, &cq), CGAlgorithms3D::distance_segment_segment(&cp, &cq, &cb, &ca)].iter().enumerate() {
            x.t(1);
            ensure!((g - t).abs() <= 1e-13 * t + 256.0 * f64::EPSILON * ext && *g >= 0.0, "distance of {:?}{:?} and {:?}{:?} (order {}) = {:e} not {:e}", a, b, p, q, k, g, t);
        }
        Ok(())
    });
    // a missing Z makes the distance of a point or segment to a proper segment undefined
    k.family("missing Z", pow(8, 4) * 15, |i, x| {
        let mut d = Dec(i);
        let mut v = vec![];
        for _ in 0..4 { v.push(g(d.take(8), 2)); }
        let mask = 1 + d.take(15);
        if v[0] == v[1] || v[2] == v[3] { return x.skip(); }
        let p: Vec<Coordinate> = v.iter().enumerate().map(|(j, q)| if mask >> j & 1 == 1 { Coordinate::new_xy(q.0 as f64, q.1 as f64) } else { MAPS[0].c(*q) }).collect();
        x.note(|| format!("{:?} without Z {:04b}", v, mask));
        // a flat difference in the plane leaves only Z to tell the end points apart
        let flat = |a: usize, b: usize| v[a].0 == v[b].0 && v[a].1 == v[b].1;
        if flat(0, 1) || flat(2, 3) { return x.skip(); }
        let r = CGAlgorithms3D::distance_segment_segment(&p[0], &p[1], &p[2], &p[3]);
        x.t(1);
        x.out("no distance");
        ensure!(r.is_nan(), "distance of {:?} with Z missing from {:04b} = {}", v, mask, r);
        if mask >> 2 & 3 != 0 {
            let r = CGAlgorithms3D::distance_point_segment(&p[0], &p[2], &p[3]);
            x.t(1);
            ensure!(r.is_nan(), "distance of {:?} from {:?} with Z missing from {:04b} = {}", v[0], &v[2..], mask, r);
        }
        Ok(())
    });
    let n = k.q(4usize, 5);
    let c = n * n * n;
    k.family(&format!("points and segments on {}x{}x{}", n, n, n), pow(c, 3), |i, x| {
        let mut d = Dec(i);
        let (p, a, b) = (g(d.take(c), n), g(d.take(c), n), g(d.take(c), n));
        let m = MAPS[(i % 5) as usize];
        let f = ps(p, a, b);
        let w = (f.0 as f64 / f.1 as f64).sqrt() * m.s;
        x.out(if a == b { "degenerate" } else if f.0 == 0 { "on segment" } else if f.1 == 1 { "end point or exact" } else { "inside" });
        x.note(|| format!("{:?} {:?}-{:?} {:?} distance {}", p, a, b, m, w));
        for (s, t) in [(a, b), (b, a)] {
            let r = CGAlgorithms3D::distance_point_segment(&m.c(p), &m.c(s), &m.m(t));
            x.t(1);
            ensure!((r - w).abs() <= m.tol() + w * 1e-14 && r >= 0.0, "distance of {:?} from {:?}-{:?} {:?} = {:e} not {:e}", p, s, t, m, r, w);
        }
        Ok(())
    });
    // point to point, Z present or not, every layout
    // Z differences that no short format holds
    let vs = [0.1, 1.0 / 3.0, -16777217.0, 1e9 + 1.0 / 3.0, 5e-7 / 3.0, -0.7, 0.0];
    k.family("point pairs with long fractions", pow(7, 6), |i, x| {
        let mut d = Dec(i);
        let v: Vec<f64> = (0..6).map(|_| *d.of(&vs)).collect();
        let (p, q) = (Coordinate::new_xyz(v[0], v[1], v[2]), Coordinate::new_xyzm(v[3], v[4], v[5], 9.0));
        let df = |j: usize| Dy::new(v[j]).sub(&Dy::new(v[j + 3]));
        let sq = |t: Dy| t.mul(&t);
        let w2 = sq(df(0)).add(&sq(df(1)));
        let (w2, w3) = (w2.f64().sqrt(), w2.add(&sq(df(2))).f64().sqrt());
        x.t(3);
        x.note(|| format!("{:?}: {} {}", v, w2, w3));
        for (nm, g, w) in [("distance", p.distance(&q), w2), ("distance_3d", p.distance_3d(&q), w3), ("3D distance", CGAlgorithms3D::distance(&p, &q), w3)] { ensure!(close(g, w, 1e-15, 0.0), "{} of {:?} = {:e} not {:e}", nm, v, g, w); }
        Ok(())
    });
    let n = k.q(3usize, 5);
    let c = n * n * n;
    k.family("point pairs", pow(c, 2) * 16 * 5, |i, x| {
        let mut d = Dec(i);
        let (a, b) = (g(d.take(c), n), g(d.take(c), n));
        let (ka, kb) = (d.take(4), d.take(4));
        let m = *d.of(&MAPS);
        let mk = |p: V, k: usize| { let q = m.c(p); match k { 0 => Coordinate::new_xy(q.x, q.y), 1 => q, 2 => Coordinate::new_xyzm(q.x, q.y, q.get_z(), 5.0), _ => Coordinate::new_xym(q.x, q.y, 6.0) } };
        let hz = |k: usize| k == 1 || k == 2;
        let v = sub(a, b);
        let w2 = ((dot((v.0, v.1, 0), (v.0, v.1, 0))) as f64).sqrt() * m.s;
        let w3 = (dot(v, v) as f64).sqrt() * m.s;
        let (p, q) = (mk(a, ka), mk(b, kb));
        let both = hz(ka) && hz(kb);
        x.out(if both { "both have Z" } else { "Z missing" });
        let r = CGAlgorithms3D::distance(&p, &q);
        let w = if both { w3 } else { w2 };
        x.t(3);
        x.note(|| format!("{:?} {:?} layouts {} {} distance {}", a, b, ka, kb, w));
        ensure!(close(r, w, 1e-15, 0.0), "3D distance {:?} {:?} {:?} layouts {} {} = {} not {}", a, b, m, ka, kb, r, w);
        ensure!(close(p.distance(&q), w2, 1e-15, 0.0), "distance {:?} {:?} = {} not {}", a, b, p.distance(&q), w2);
        let r = p.distance_3d(&q);
        if both { ensure!(close(r, w3, 1e-15, 0.0), "distance_3d {:?} {:?} = {} not {}", a, b, r, w3); }
        Ok(())
    });
    k.finish()
}
