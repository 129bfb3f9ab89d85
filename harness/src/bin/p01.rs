// P01 Orientation of three points is exactly right
use geos_rs::verif::*;
use geosmc::{ensure, exact::*, mc::*, num::ulp};
type P = (f64, f64);
fn c(p: P) -> Coordinate { Coordinate::new_xy(p.0, p.1) }

/// exact sign and whether the property claims it (see DESIGN P01)
use geosmc::exact::orient_claimed as truth;

/// all entry points and all symmetries of one triple
fn triple(a: P, b: P, q: P, want: i32, x: &mut Ctx) -> Res {
    x.out(match want { 1 => "left", -1 => "right", _ => "collinear" });
    let t = [(a, b, q, 1), (b, q, a, 1), (q, a, b, 1), (b, a, q, -1), (a, q, b, -1), (q, b, a, -1)];
    for (p1, p2, p3, s) in t {
        let g = Orientation::index(&c(p1), &c(p2), &c(p3));
        ensure!(g == s * want, "Orientation::index({:?},{:?},{:?}) = {} but the exact sign is {}", p1, p2, p3, g, s * want);
    }
    let g = CGAlgorithmsDD::orientation_index_coordinates(&c(a), &c(b), &c(q));
    ensure!(g == want, "orientation_index_coordinates({:?},{:?},{:?}) = {} not {}", a, b, q, g, want);
    let g = CGAlgorithmsDD::orientation_index_xy(a.0, a.1, b.0, b.1, q.0, q.1);
    ensure!(g == want, "orientation_index_xy({:?},{:?},{:?}) = {} not {}", a, b, q, g, want);
    let g = LineSegment::new_from_coordinates(&c(a), &c(b)).orientation_index_coordinate(&c(q));
    ensure!(g == want, "LineSegment({:?},{:?}).orientation_index({:?}) = {} not {}", a, b, q, g, want);
    let g = CGAlgorithmsDD::orientation_index_filter(a.0, a.1, b.0, b.1, q.0, q.1);
    ensure!(g == 2 || g == want, "orientation filter({:?},{:?},{:?}) claims {} but the exact sign is {}", a, b, q, g, want);
    if g == 2 { x.out("filter undecided"); }
    x.t(10);
    Ok(())
}
fn judge(a: P, b: P, q: P, x: &mut Ctx) -> Res {
    x.note(|| format!("p1={:?} p2={:?} q={:?} exact={:?}", a, b, q, truth(a, b, q)));
    match truth(a, b, q) { None => x.skip(), Some(w) => triple(a, b, q, w, x) }
}

fn main() {
    let mut k = Check::new("P01");
    // all triples of a lattice
    let n = k.q(8usize, 11);
    k.family("lattice triples", pow(n * n, 3), |i, x| {
        let mut d = Dec(i);
        let mut p = || { let k = d.take(n * n); ((k % n) as i64 - 2, (k / n) as i64 - 2) };
        let (a, b, q) = (p(), p(), p());
        let z = |v: i64| if v == 0 && i % 2 == 1 { -0.0 } else { v as f64 };
        let f = |p: (i64, i64)| (z(p.0), z(p.1));
        x.note(|| format!("{:?} {:?} {:?}", a, b, q));
        triple(f(a), f(b), f(q), orient_i(a, b, q), x)
    });
    // small lattices moved and scaled to where doubles are coarse
    let offs = [0.0, 1e3, -(2f64.powi(30) + 1.0), 2f64.powi(46) + 3.0, -(2f64.powi(51) - 5.0), 4503599627370000.0];
    let scal = [1.0, 2f64.powi(-60), 2f64.powi(70), 2f64.powi(-120)];
    let m = k.q(4usize, 6);
    k.family("lattice triples under offset and scale", pow(m * m, 3) * (offs.len() * offs.len() * scal.len()) as u64, |i, x| {
        let mut d = Dec(i);
        let mut p = || { let k = d.take(m * m); ((k % m) as i64 - 1, (k / m) as i64 - 1) };
        let (a, b, q) = (p(), p(), p());
        let (ox, oy, s) = (*d.of(&offs), *d.of(&offs), *d.of(&scal));
        let f = |p: (i64, i64)| ((p.0 as f64 + ox) * s, (p.1 as f64 + oy) * s);
        x.note(|| format!("{:?} {:?} {:?}", f(a), f(b), f(q)));
        triple(f(a), f(b), f(q), orient_i(a, b, q), x)
    });
    // every power-of-two scale, independently in x and y: no absolute tolerance survives this
    let es: Vec<i32> = (-240..=240).step_by(k.q(12, 3)).collect();
    k.family("lattice triples at every scale", pow(9, 3) * (es.len() * es.len()) as u64, |i, x| {
        let mut d = Dec(i);
        let mut p = || { let k = d.take(9); ((k % 3) as i64 - 1, (k / 3) as i64 - 1) };
        let (a, b, q) = (p(), p(), p());
        let (sx, sy) = (2f64.powi(*d.of(&es)), 2f64.powi(*d.of(&es)));
        let f = |p: (i64, i64)| (p.0 as f64 * sx, p.1 as f64 * sy);
        x.note(|| format!("{:?} {:?} {:?}", f(a), f(b), f(q)));
        triple(f(a), f(b), f(q), orient_i(a, b, q), x)
    });
    // a deviation of every size from a straight line at every distance from the origin
    let dv: Vec<i32> = (0..=50).step_by(k.q(2, 1)).collect();
    let offk: Vec<i32> = (0..=51).step_by(k.q(3, 1)).collect();
    let dir: Vec<(i64, i64)> = vec![(1, 0), (0, 1), (1, 1), (3, -2), (-7, 5), (1001, 999), (-65537, 4099)];
    k.family("deviations of every size at every offset", (dv.len() * offk.len() * offk.len() * dir.len() * 16) as u64, |i, x| {
        let mut d = Dec(i);
        let (e, ox, oy, u) = (*d.of(&dv), 1i64 << *d.of(&offk), -(1i64 << *d.of(&offk)), *d.of(&dir));
        // unit 2^-r chosen so that every ordinate is an integer multiple of it below 2^53
        let (t, s) = ([-3i64, 1, 2, 5][d.take(4)], [(1i64, 0i64), (0, 1), (-1, 0), (0, -1)][d.take(4)]);
        let dev = 1i64 << e;
        let a = (ox, oy);
        let b = (ox + u.0, oy + u.1);
        let q = (ox + t * u.0 + s.0 * dev, oy + t * u.1 + s.1 * dev);
        for v in [a, b, q] { if v.0.abs() >= 1 << 53 || v.1.abs() >= 1 << 53 { return x.skip(); } }
        if (q.0 - b.0).abs() >= 1 << 53 || (q.1 - b.1).abs() >= 1 << 53 { return x.skip(); }
        // the same picture with the unit 2^-e, so that the deviation is always 1
        let g = |p: (i64, i64)| (p.0 as f64 * 2f64.powi(-e), p.1 as f64 * 2f64.powi(-e));
        x.note(|| format!("{:?} {:?} {:?}", g(a), g(b), g(q)));
        triple(g(a), g(b), g(q), orient_i(a, b, q), x)
    });
    // the classical near-collinear picture: a fine patch of doubles around a point of the line
    let lines: Vec<(P, P, P)> = vec![
        ((12.0, 12.0), (24.0, 24.0), (0.5, 0.5)), ((0.5, 0.5), (12.0, 12.0), (24.0, 24.0)),
        ((-12.0, -12.0), (1e5, 1e5), (0.5, 0.5)), ((17.3, 17.3), (24.25, 24.25), (0.5, 0.5)),
        ((0.0, 0.0), (3e7, 1e7), (1.5, 0.5)), ((1e6, 2e6), (-1e6, -2e6), (0.75, 1.5)),
        ((0.1, 0.3), (1.1, 3.3), (0.6, 1.8)), ((1e-9, 1e-9), (1e9, 1e9), (1.0, 1.0)),
        ((219.3649559090992, 140.84159161824724), (168.9018919682399, -5.713787599646864), (186.80814046338352, 46.28973405831556)),
        ((4481.0, 33.0), (-7.0, 9007.0), (2237.0, 4520.0)),
    ];
    let r = k.q(200usize, 800);
    k.family("ulp patches around collinear points", (lines.len() * r * r) as u64, |i, x| {
        let mut d = Dec(i);
        let (u, v) = (d.take(r) as i64 - r as i64 / 2, d.take(r) as i64 - r as i64 / 2);
        let (a, b, q) = *d.of(&lines);
        judge(a, b, (ulp(q.0, u), ulp(q.1, v)), x)
    });
    // near-collinear points far along integer directions: q = a + (t/2)(dx,dy) + a last-unit offset
    let dirs: Vec<(i64, i64)> = vec![(1, 0), (1, 1), (3, 2), (-7, 5), (1 << 20, (1 << 20) + 1), ((1 << 26) - 1, (1 << 26) + 3), (-(1 << 31) - 7, 1 << 29), (1 << 40, 3), ((1 << 46) + 1, (1 << 45) + 1), ((1 << 48) - 1, (1 << 48) - 3)];
    let starts: Vec<(i64, i64)> = vec![(0, 0), (5, -3), ((1 << 47) + 1, -(1 << 40)), (-(1 << 30) + 9, (1 << 33) + 1)];
    let ts: Vec<i64> = vec![-8, -5, -2, -1, 0, 1, 2, 3, 4, 7, 10];
    k.family("long near-collinear integer triples", (dirs.len() * starts.len() * ts.len() * 25) as u64, |i, x| {
        let mut d = Dec(i);
        let (dx, dy) = *d.of(&dirs);
        let a = *d.of(&starts);
        let t = *d.of(&ts);
        let (e, f) = (d.take(5) as i64 - 2, d.take(5) as i64 - 2);
        let b = (a.0 + dx, a.1 + dy);
        let q = (a.0 + t * dx / 2 + e, a.1 + t * dy / 2 + f);
        let g = |p: (i64, i64)| (p.0 as f64, p.1 as f64);
        for v in [a.0, a.1, b.0, b.1, q.0, q.1] { if v.abs() >= 1 << 53 { return x.skip(); } }
        if (q.0 - b.0).abs() >= 1 << 53 || (q.1 - b.1).abs() >= 1 << 53 { return x.skip(); }
        x.note(|| format!("{:?} {:?} {:?} exact {}", a, b, q, orient_i(a, b, q)));
        triple(g(a), g(b), g(q), orient_i(a, b, q), x)
    });
    // every sextuple over ordinates of very different size
    let alpha: Vec<f64> = if k.thorough {
        vec![0.0, -0.0, 1.0, -1.0, ulp(1.0, 1), 3.0, -0.1, 1e-8, 1e8 + 0.125, -1e16, 2f64.powi(-40), 1e120, 7e-120, 0.1, 1e-4, -1e5, 255.75]
    } else { vec![0.0, 1.0, -1.0, ulp(1.0, 1), 3.0, -0.1, 1e8 + 0.125, -1e16, 7e-120, 1e120, 1e-4, 255.75] };
    k.family("ordinates of all magnitudes", pow(alpha.len(), 6), |i, x| {
        let mut d = Dec(i);
        let mut p = || (*d.of(&alpha), *d.of(&alpha));
        let (a, b, q) = (p(), p(), p());
        judge(a, b, q, x)
    });
    // neighbourhood of 1: tiny differences only
    let nb: Vec<f64> = if k.thorough { vec![1.0, ulp(1.0, 1), ulp(1.0, 2), ulp(1.0, -1), ulp(1.0, 5), 1.0 + 2f64.powi(-30), 1.5, ulp(1.5, 1), -1.0, ulp(-1.0, 1), ulp(2.0, -1), 2.0] } else { vec![1.0, ulp(1.0, 1), ulp(1.0, 2), ulp(1.0, -1), ulp(1.0, 5), 1.0 + 2f64.powi(-30), 1.5, -1.0, ulp(-1.0, 1)] };
    k.family("triples of last-bit neighbours", pow(nb.len(), 6), |i, x| {
        let mut d = Dec(i);
        let mut p = || (*d.of(&nb), *d.of(&nb));
        let (a, b, q) = (p(), p(), p());
        judge(a, b, q, x)
    });
    // differences that round by up to half a unit each, all errors adding up, nearly collinear: the worst case of the floating filter
    let hu = k.q(8usize, 14);
    k.family("differences rounding the worst way", pow(hu, 4) * 9 * 9 * 7, |i, x| {
        let mut d = Dec(i);
        let u = f64::EPSILON;
        let mut m = || d.take(hu) as f64 * u;
        let (a, b) = ((m(), m()), (m(), m()));
        let (f, g) = (d.take(9) as f64 - 4.0, d.take(9) as f64 - 4.0);
        let q = (f * u / 4.0, g * u / 4.0);
        let (m, n, s) = [(1.0, 1.0, 1.0), (1.0, 1.25, 1.0), (1.0, 1.0 + 1.0 / 16.0, 1.0), (1.0, 1.0 + 1.0 / 64.0, -1.0), (1.0, 1.4375, 1.0), (1.125, 1.25, 4.0), (1.0, 1.0 + 1.0 / 1024.0, 1.0)][d.take(7)];
        let (a, b) = ((a.0 + m, (a.1 + m) * s), (b.0 + n, (b.1 + n) * s));
        judge(a, b, (q.0, q.1 * s), x)
    });
    // orientation of a segment relative to a segment
    let s = k.q(6usize, 8);
    let off: Vec<(f64, f64)> = vec![(0.0, 0.0), (1e9 + 1.0, -3e9), (-4503599627370001.0, 77.0)];
    k.family("segment against segment", pow(s * s, 4) * off.len() as u64, |i, x| {
        let mut d = Dec(i);
        let mut p = || { let k = d.take(s * s); ((k % s) as i64, (k / s) as i64) };
        let (a, b, e, f) = (p(), p(), p(), p());
        let (ox, oy) = *d.of(&off);
        let (o0, o1) = (orient_i(a, b, e), orient_i(a, b, f));
        let want = if o0 >= 0 && o1 >= 0 { o0.max(o1) } else if o0 <= 0 && o1 <= 0 { o0.min(o1) } else { 0 };
        let g = |p: (i64, i64)| c((p.0 as f64 + ox, p.1 as f64 + oy));
        let s0 = LineSegment::new_from_coordinates(&g(a), &g(b));
        let s1 = LineSegment::new_from_coordinates(&g(e), &g(f));
        let got = s0.orientation_index_line_segment(&s1);
        x.t(1);
        x.note(|| format!("{:?}{:?} vs {:?}{:?} -> {}", a, b, e, f, want));
        x.out(if want > 0 { "segment left" } else if want < 0 { "segment right" } else if o0 == 0 && o1 == 0 { "segment collinear" } else { "segment crosses the line" });
        ensure!(got == want, "orientation of {:?}{:?} relative to {:?}{:?} is {} but should be {}", e, f, a, b, got, want);
        Ok(())
    });
    // 2x2 determinant signs
    let det: Vec<f64> = vec![0.0, -0.0, 1.0, -1.0, ulp(1.0, 1), ulp(-1.0, 1), 3.0, 1e-30, -1e30, 0.1, 1.0 / 3.0, ulp(0.1, 1), -9007199254740993.0, 1e100];
    k.family("2x2 determinant signs", pow(det.len(), 4), |i, x| {
        let mut d = Dec(i);
        let v = [*d.of(&det), *d.of(&det), *d.of(&det), *d.of(&det)];
        let w = Dy::new(v[0]).mul(&Dy::new(v[3])).sub(&Dy::new(v[1]).mul(&Dy::new(v[2]))).sign();
        let g = CGAlgorithmsDD::sign_of_det2x2_f64(v[0], v[1], v[2], v[3]);
        ensure!(g == w, "sign_of_det2x2({:?}) = {} but should be {}", v, g, w);
        let g = CGAlgorithmsDD::sign_of_det2x_2dd(&DD::value_of_f64(v[0]), &DD::value_of_f64(v[1]), &DD::value_of_f64(v[2]), &DD::value_of_f64(v[3]));
        ensure!(g == w, "sign_of_det2x2 of double-doubles {:?} = {} but should be {}", v, g, w);
        x.note(|| format!("{:?} -> {}", v, w));
        x.t(2);
        Ok(())
    });
    k.finish()
}
