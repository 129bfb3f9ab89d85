// P07 Ring area, ring orientation and line length
use geos_rs::verif::*;
use geosmc::{ensure, exact::*, geo::*, mc::*};

#[derive(Clone, Copy)]
struct Map { ox: i64, oy: i64, s: f64 }
impl Map { fn c(&self, p: I) -> Coordinate { Coordinate::new_xy((p.0 + self.ox) as f64 * self.s, (p.1 + self.oy) as f64 * self.s) } }
const MAPS: [Map; 7] = [Map { ox: 0, oy: 0, s: 1.0 }, Map { ox: -1000003, oy: 500009, s: 1.0 }, Map { ox: 1 << 50, oy: -(1 << 50), s: 1.0 },
    Map { ox: 0, oy: 1 << 45, s: 1.0 }, Map { ox: 0, oy: 0, s: 9.5367431640625e-7 }, Map { ox: 1, oy: 1, s: 1.6069380442589903e60 }, Map { ox: -1, oy: -2, s: 0.125 }];

fn layout(v: &Vec<Coordinate>, kind: usize) -> CoordinateArraySequence {
    match kind {
        0 => CoordinateArraySequence::new_with_coordinates(v),
        1 => CoordinateArraySequence::new_with_coordinates_dimension_measures(v.clone(), 2, 0),
        2 => { let w = v.iter().enumerate().map(|(k, c)| Coordinate::new_xyz(c.x, c.y, k as f64)).collect(); CoordinateArraySequence::new_with_coordinates(&w) }
        3 => { let w = v.iter().enumerate().map(|(k, c)| Coordinate::new_xym(c.x, c.y, -(k as f64))).collect(); CoordinateArraySequence::new_with_coordinates(&w) }
        _ => { let w = v.iter().enumerate().map(|(k, c)| Coordinate::new_xyzm(c.x, c.y, 5.0, -(k as f64))).collect(); CoordinateArraySequence::new_with_coordinates(&w) }
    }
}
/// twice the clockwise-positive area
fn area2(r: &[I]) -> i128 { -r.windows(2).map(|w| cross(w[0], w[1])).sum::<i128>() }

/// simple: consecutive distinct vertices (repeats removed), edges meet only at shared end points
fn simple(r: &[I]) -> bool {
    let mut v = r.to_vec();
    v.dedup();
    if v.len() < 4 || v[0] != v[v.len() - 1] { return false; }
    let n = v.len() - 1;
    for i in 0..n { for j in i + 1..n {
        let (a, b, c, d) = (v[i], v[i + 1], v[j], v[j + 1]);
        if j == i + 1 { if on_seg(d, a, b) || on_seg(a, c, d) { if !(n == 2) { return false; } } }
        else if i == 0 && j == n - 1 { if on_seg(c, a, b) || on_seg(b, c, d) { return false; } }
        else if segs_meet(a, b, c, d) { return false; }
    } }
    true
}
fn judge(r: &[I], m: &Map, all: bool, x: &mut Ctx) -> Res { judge_known(r, m, all, simple(r), x) }
fn judge_known(r: &[I], m: &Map, all: bool, simple: bool, x: &mut Ctx) -> Res {
    let v: Vec<Coordinate> = r.iter().map(|p| m.c(*p)).collect();
    let a2 = area2(r);
    let (lo, hi) = (r.iter().map(|p| (p.0, p.1)).fold((0, 0), |m, p| (m.0.min(p.0), m.1.min(p.1))), r.iter().fold((0, 0), |m, p| (m.0.max(p.0), m.1.max(p.1))));
    let ext = ((hi.0 - lo.0).max(1) * (hi.1 - lo.1).max(1)) as f64 * m.s * m.s * r.len() as f64;
    let want = a2 as f64 / 2.0 * m.s * m.s;
    let tol = ext * 1e-14;
    for k in 0..(if all { 6 } else { 2 }) {
        let (sg, ab) = if k == 0 { (Area::of_ring_signed_vec(&v), Area::of_ring_vec(&v)) }
            else { let s = layout(&v, k - 1); (Area::of_ring_signed_coordinate_sequence(&s), Area::of_ring_coordinate_sequence(&s)) };
        ensure!((sg - want).abs() <= tol, "signed area of {:?} offset ({},{}) scale {} (form {}) = {:e} not {:e}", r, m.ox, m.oy, m.s, k, sg, want);
        ensure!((ab - want.abs()).abs() <= tol && ab >= 0.0, "area of {:?} offset ({},{}) scale {} (form {}) = {:e} not {:e}", r, m.ox, m.oy, m.s, k, ab, want.abs());
        x.t(2);
    }
    let g = Orientation::is_ccw_area_vec(&v);
    ensure!(g == (a2 < 0), "is_ccw_area {:?} offset ({},{}) = {}", r, m.ox, m.oy, g);
    let g = Orientation::is_ccw_vec(&v);
    x.t(2);
    if simple {
        x.out(if a2 < 0 { "simple ccw" } else { "simple cw" });
        ensure!(a2 != 0, "oracle: simple ring without area {:?}", r);
        ensure!(g == (a2 < 0), "is_ccw {:?} offset ({},{}) scale {} = {} but signed area is {}", r, m.ox, m.oy, m.s, g, want);
        if all { for l in 0..5 {
            let g = Orientation::is_ccw_coordinate_array_sequence(&layout(&v, l));
            ensure!(g == (a2 < 0), "is_ccw of sequence layout {} {:?} = {}", l, r, g);
            x.t(1);
        } }
    } else { x.out(if a2 == 0 { "zero area" } else { "not simple" }); }
    Ok(())
}

fn main() {
    let mut k = Check::new("P07");
    // all closed rings of lattice points (any shape)
    for (n, m) in k.q(vec![(3usize, 6usize), (4, 5), (5, 4)], vec![(3, 7), (4, 6), (5, 5), (7, 4)]) {
        k.family(&format!("closed rings of up to {} points on {}x{}", m, n, n), seqs(n * n, 1, m), |i, x| {
            let mut d = Dec(i);
            let mut r: Vec<I> = seq(&mut d, n * n, 1, m).iter().map(|v| lat(*v, n, -1)).collect();
            r.push(r[0]);
            x.note(|| format!("{:?} simple={} doubled area {}", r, simple(&r), area2(&r)));
            judge(&r, &MAPS[0], i % 7 == 0, x)
        });
    }
    let m = k.q(4usize, 5);
    k.family("closed rings under offset and scale", seqs(16, 3, m) * (MAPS.len() as u64 - 1), |i, x| {
        let mut d = Dec(i);
        let mp = MAPS[1 + d.take(MAPS.len() - 1)];
        let mut r: Vec<I> = seq(&mut d, 16, 3, m).iter().map(|v| lat(*v, 4, 0)).collect();
        r.push(r[0]);
        x.note(|| format!("{:?} offset ({},{}) scale {}", r, mp.ox, mp.oy, mp.s));
        judge(&r, &mp, true, x)
    });
    // rectilinear and slanted skylines: many flat peaks, collinear vertices, repeated points, any start, both directions
    let (w, h) = k.q((6usize, 3usize), (8, 3));
    k.family("skylines from every start in both directions", pow(h, w) * 2 * 2 * 3 * (2 * w as u64 + 2), |i, x| {
        let mut d = Dec(i);
        let hs: Vec<usize> = (0..w).map(|_| d.take(h)).collect();
        let (slant, rev, dup) = (d.bit(), d.bit(), d.take(3));
        let st = d.take(2 * w + 2);
        let mut r: Vec<I> = vec![(0, 0)];
        for (c, q) in hs.iter().enumerate() {
            let (a, b) = (2 * c as i64, 2 * c as i64 + 2);
            let y = *q as i64 + 1;
            if slant { r.push((a + 1, y)); } else { r.push((a, y)); r.push((b, y)); }
        }
        r.push((2 * w as i64, 0));
        let s = st % r.len();
        if st >= r.len() { return x.skip(); }
        r.rotate_left(s);
        if dup == 1 { let mut q = vec![]; for p in r { q.push(p); q.push(p); } r = q; }
        if dup == 2 { let p = r[0]; r.insert(0, p); let p = *r.last().unwrap(); r.push(p); }
        r.push(r[0]);
        if rev { r.reverse(); }
        x.note(|| format!("{:?}", r));
        judge(&r, &MAPS[0], true, x)?;
        // upside down as well (the highest edge is then the flat base)
        let u: Vec<I> = r.iter().map(|p| (p.0, -p.1)).collect();
        judge(&u, &MAPS[1], false, x)?;
        let t: Vec<I> = r.iter().map(|p| (p.1, p.0)).collect();
        judge(&t, &MAPS[0], false, x)
    });
    // every power-of-two scale and offset
    let mut every: Vec<Map> = (-150..=150).step_by(k.q(6, 1)).map(|e| Map { ox: 0, oy: 0, s: 2f64.powi(e) }).collect();
    for e in (0..=50).step_by(k.q(5, 1)) { let o = 1i64 << e; every.extend([Map { ox: o, oy: 0, s: 1.0 }, Map { ox: 3, oy: -o - 1, s: 2f64.powi(30) }, Map { ox: -o + 1, oy: o, s: 2f64.powi(-20) }]); }
    let m = k.q(4usize, 5);
    k.family("closed rings at every scale and offset", seqs(9, 3, m) * every.len() as u64, |i, x| {
        let mut d = Dec(i);
        let mut r: Vec<I> = seq(&mut d, 9, 3, m).iter().map(|v| lat(*v, 3, 0)).collect();
        let mp = *d.of(&every);
        r.push(r[0]);
        x.note(|| format!("{:?} offset ({},{}) scale {}", r, mp.ox, mp.oy, mp.s));
        judge(&r, &mp, false, x)
    });
    // simple rings of every size, from several starts and in both directions
    let top = k.q(300u64, 1000);
    k.family("simple rings of every size", (top - 2) * 5 * 2 * 4, |i, x| {
        let mut d = Dec(i);
        let (shape, rev, st) = (d.take(5), d.bit(), d.take(4));
        let n = d.0 as i64 + 3;
        // counter-clockwise constructions
        let mut r: Vec<I> = match shape {
            0 => (0..n).map(|k| (k, k * k)).collect(), // convex, on a parabola
            1 => { let h = (n + 1) / 2; (0..n).map(|k| if k < h { (2 * k, 0) } else { (2 * (n - 1 - k) + 1, 5 + (k % 3)) }).collect() } // strip with a ragged roof
            2 => (0..n).map(|k| if k == 0 { (2 * n, -1) } else if k == n - 1 { (0, -1) } else { (2 * (n - k), if k % 2 == 0 { 0 } else { 9 }) }).collect(), // comb
            3 => { let h = n / 2; (0..n).map(|k| if k < h { (0, -k) } else { (7, k - 2 * h) }).collect() } // tower with collinear sides
            _ => { let h = (n - 1) / 2; (0..n).map(|k| if k <= h { (k, -(h - k).min(3) * k) } else { (n - k, (n - k) * 2 + 1) }).collect() }
        };
        if shape == 4 { r = (0..n).map(|k| { let t = k * (n - 1 - k); (k, -t) }).collect(); if n == 3 { r = vec![(0, 0), (1, -1), (2, 0)]; } } // bowl hanging from its chord
        let len = r.len();
        r.rotate_left([0, 1 % len, len / 2, len - 1][st]);
        r.push(r[0]);
        if rev { r.reverse(); }
        let mp = [MAPS[0], MAPS[1], MAPS[6]][(n % 3) as usize];
        x.note(|| format!("shape {} of {} points, doubled clockwise area {}", shape, n, area2(&r)));
        let a2 = area2(&r);
        if a2 == 0 || (n <= 12 && !simple(&r)) { return x.skip(); }
        if n <= 40 { ensure!(simple(&r), "oracle: shape {} of {} points is not simple", shape, n); }
        judge_known(&r, &mp, n % 16 == 0, true, x)?;
        let v: Vec<Coordinate> = r.iter().map(|p| mp.c(*p)).collect();
        let w: f64 = r.windows(2).map(|w| (sq(sub(w[0], w[1])) as f64).sqrt()).sum::<f64>() * mp.s;
        let g = Length::of_line(&layout(&v, (n % 5) as usize));
        x.t(1);
        ensure!((g - w).abs() <= w * 1e-12, "length of {} points is {:e} not {:e}", r.len(), g, w);
        Ok(())
    });
    // rings of more vertices than eight or sixteen bits count, starting anywhere
    let hg = huge(70001);
    k.family("huge rings", hg.len() as u64 * 4 * 2, |i, x| {
        let mut d = Dec(i);
        let (n, s) = *d.of(&hg);
        let (shape, rev) = (d.take(4), d.bit());
        let n = n as i64;
        let mut r: Vec<I> = match shape {
            0 => (0..n).map(|k| (k, k * k)).collect(),
            1 => { let h = n / 2; (0..n).map(|k| if k < h { (0, -k) } else { (7, k - 2 * h) }).collect() }
            2 => (0..n).map(|k| if k == 0 { (2 * n, -1) } else if k == n - 1 { (0, -1) } else { (2 * (n - k), if k % 2 == 0 { 0 } else { 9 }) }).collect(),
            _ => (0..n).map(|k| if k < n - 2 { (0, 0) } else if k == n - 2 { (5, 0) } else { (5, 5) }).collect(), // almost all vertices repeated
        };
        r.rotate_left(s);
        r.push(r[0]);
        if rev { r.reverse(); }
        x.note(|| format!("shape {} of {} points starting at {}", shape, n, s));
        let a2 = area2(&r);
        let v: Vec<Coordinate> = r.iter().map(|p| MAPS[0].c(*p)).collect();
        let want = a2 as f64 / 2.0;
        let lay = layout(&v, (i % 5) as usize);
        for (nm, g) in [("signed", Area::of_ring_signed_vec(&v)), ("signed sequence", Area::of_ring_signed_coordinate_sequence(&lay))] { ensure!((g - want).abs() <= want.abs() * 1e-9, "{} area of ring {} of {} points starting at {} = {:e} not {:e}", nm, shape, n, s, g, want); }
        for (nm, g) in [("plain", Area::of_ring_vec(&v)), ("sequence", Area::of_ring_coordinate_sequence(&lay))] { ensure!((g - want.abs()).abs() <= want.abs() * 1e-9, "{} area of ring {} of {} points starting at {} = {:e} not {:e}", nm, shape, n, s, g, want.abs()); }
        x.out(if a2 < 0 { "simple ccw" } else { "simple cw" });
        ensure!(Orientation::is_ccw_vec(&v) == (a2 < 0) && Orientation::is_ccw_coordinate_array_sequence(&lay) == (a2 < 0) && Orientation::is_ccw_area_vec(&v) == (a2 < 0), "orientation of ring {} of {} points starting at {}, reversed {}", shape, n, s, rev);
        let w: f64 = r.windows(2).map(|w| (sq(sub(w[0], w[1])) as f64).sqrt()).sum();
        let g = Length::of_line(&lay);
        ensure!((g - w).abs() <= w * 1e-9, "length of ring {} of {} points starting at {} = {:e} not {:e}", shape, n, s, g, w);
        x.t(8);
        Ok(())
    });
    // long thin triangles: the turn at the top is nearly straight
    let u = k.q(4i64, 8);
    let wd = (2 * u + 1) as usize;
    let dirs: Vec<I> = vec![(1 << 24, 1 << 25), ((1 << 25) - 1, (1 << 24) + 3), (3, 1 << 26), (-(1 << 26) + 5, 1 << 25), (1 << 26, 7)];
    k.family("needle rings", dirs.len() as u64 * pow(wd, 4) * 3, |i, x| {
        let mut d = Dec(i);
        let v = *d.of(&dirs);
        let mut e = || d.take(wd) as i64 - u;
        let b = (v.0 + e(), v.1 + e());
        let c = (2 * v.0 + e(), 2 * v.1 + e());
        let mut r = vec![(0, 0), b, c];
        r.rotate_left(d.take(3));
        r.push(r[0]);
        let q: Vec<Coordinate> = r.iter().map(|p| MAPS[0].c(*p)).collect();
        let a2 = area2(&r);
        if !simple(&r) { return x.skip(); }
        x.note(|| format!("{:?}", r));
        x.out(if a2 < 0 { "simple ccw" } else { "simple cw" });
        ensure!(Orientation::is_ccw_vec(&q) == (a2 < 0), "is_ccw {:?} but doubled clockwise area is {}", r, a2);
        x.t(1);
        Ok(())
    });
    // any point list at all, closed or not: no panic; fewer than three points have no area
    let n = k.q(4usize, 6);
    let al = [f64::NAN, 0.0, -0.0, 1.0, f64::INFINITY];
    k.family("arbitrary point lists", seqs(25, 0, n), |i, x| {
        let mut d = Dec(i);
        let v: Vec<Coordinate> = seq(&mut d, 25, 0, n).iter().map(|q| Coordinate::new_xy(al[q % 5], al[q / 5])).collect();
        x.note(|| format!("{} points", v.len()));
        x.out("arbitrary list");
        let _ = Orientation::is_ccw_vec(&v);
        for l in 0..5 { let _ = Orientation::is_ccw_coordinate_array_sequence(&layout(&v, l)); let _ = Length::of_line(&layout(&v, l)); }
        let _ = Orientation::is_ccw_area_vec(&v);
        let (a, b) = (Area::of_ring_signed_vec(&v), Area::of_ring_signed_coordinate_sequence(&layout(&v, 0)));
        x.t(14);
        if v.len() < 3 { ensure!(a == 0.0 && b == 0.0, "a list of {} points has area {} {}", v.len(), a, b); }
        Ok(())
    });
    // decimal rings, whose differences and products are rounded
    let (nd, len) = k.q((10usize, 5usize), (12, 5));
    k.family("decimal rings and lines", seqs(nd, 2, len), |i, x| {
        let mut d = Dec(i);
        let mut r: Vec<P> = seq(&mut d, nd, 2, len).iter().map(|k| DEC[*k]).collect();
        let v: Vec<Coordinate> = r.iter().map(|p| Coordinate::new_xy(p.0, p.1)).collect();
        let df = |a: f64, b: f64| Dy::new(a).sub(&Dy::new(b));
        let w: f64 = r.windows(2).map(|e| df(e[0].0, e[1].0).sq().add(&df(e[0].1, e[1].1).sq()).f64().sqrt()).sum();
        for k in 0..5 {
            let g = Length::of_line(&layout(&v, k));
            ensure!((g - w).abs() <= 1e-14 * w, "length of {:?} layout {} = {:e} not {:e}", r, k, g, w);
        }
        x.t(5);
        if r.windows(2).any(|e| e[0] == e[1]) || r.len() < 3 || r[0] == r[r.len() - 1] { x.out("length only"); return Ok(()); }
        r.push(r[0]);
        let v: Vec<Coordinate> = r.iter().map(|p| Coordinate::new_xy(p.0, p.1)).collect();
        // clockwise-positive
        let mut a2 = Dy::int(0);
        for e in r.windows(2) { a2 = a2.sub(&df(e[0].0, r[0].0).mul(&df(e[1].1, r[0].1)).sub(&df(e[0].1, r[0].1).mul(&df(e[1].0, r[0].0)))); }
        let span = |f: fn(&P) -> f64| { let (a, b) = r.iter().map(f).fold((f64::MAX, f64::MIN), |m, v| (m.0.min(v), m.1.max(v))); b - a };
        let tol = 1e-14 * span(|p| p.0) * span(|p| p.1);
        let want = a2.f64() / 2.0;
        for k in 0..6 {
            let (sg, ab) = if k == 0 { (Area::of_ring_signed_vec(&v), Area::of_ring_vec(&v)) }
                else { let s = layout(&v, k - 1); (Area::of_ring_signed_coordinate_sequence(&s), Area::of_ring_coordinate_sequence(&s)) };
            ensure!((sg - want).abs() <= tol && ab == sg.abs(), "areas of {:?} (form {}) are {:e}, {:e} not {:e}", r, k, sg, ab, want);
        }
        x.t(12);
        if want.abs() > tol { ensure!(Orientation::is_ccw_area_vec(&v) == (want < 0.0), "is_ccw_area of {:?}", r); x.t(1); }
        // the sense of a simple ring
        let n = r.len() - 1;
        for i in 0..n { for j in i + 1..n {
            let (o1, o2) = (orient_claimed(r[i], r[i + 1], r[j]), orient_claimed(r[i], r[i + 1], r[j + 1]));
            let (Some(o1), Some(o2)) = (o1, o2) else { return Ok(()) };
            if j == i + 1 { if o2 == 0 { return Ok(()); } }
            else if i == 0 && j == n - 1 { if o1 == 0 { return Ok(()); } }
            else if segs_share([r[i], r[i + 1], r[j], r[j + 1]]) { return Ok(()); }
        } }
        x.out("simple decimal ring");
        let ccw = a2.sign() < 0;
        ensure!(Orientation::is_ccw_vec(&v) == ccw, "is_ccw {:?} is not {}", r, ccw);
        for l in 0..5 { ensure!(Orientation::is_ccw_coordinate_array_sequence(&layout(&v, l)) == ccw, "is_ccw of sequence layout {} {:?} is not {}", l, r, ccw); }
        x.t(6);
        Ok(())
    });
    // lengths
    let (n, m) = k.q((4usize, 5usize), (4, 6));
    k.family("line lengths", seqs(n * n, 0, m), |i, x| {
        let mut d = Dec(i);
        let l: Vec<I> = seq(&mut d, n * n, 0, m).iter().map(|v| lat(*v, n, -1)).collect();
        let mp = [MAPS[0], MAPS[1], MAPS[4], Map { ox: 0, oy: 0, s: 1e200 }, Map { ox: 0, oy: 0, s: 1e-200 }][(i % 5) as usize];
        let v: Vec<Coordinate> = l.iter().map(|p| mp.c(*p)).collect();
        let w: f64 = l.windows(2).map(|w| (sq(sub(w[0], w[1])) as f64).sqrt()).sum::<f64>() * mp.s;
        x.out(if l.len() < 2 { "no segment" } else { "length" });
        x.note(|| format!("{:?} length {}", l, w));
        for k in 0..5 {
            let g = Length::of_line(&layout(&v, k));
            x.t(1);
            ensure!((g - w).abs() <= w * 1e-13, "length of {:?} scale {} layout {} = {:e} not {:e}", l, mp.s, k, g, w);
        }
        Ok(())
    });
    let _ = orient_i;
    k.finish()
}
