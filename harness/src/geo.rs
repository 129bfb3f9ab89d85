//! Exact plane geometry on integer points, shared by the oracles.
use crate::exact::{orient, orient_i, Dy, Rat};
pub type I = (i64, i64);
pub type P = (f64, f64);

pub fn on_seg(p: I, a: I, b: I) -> bool {
    orient_i(a, b, p) == 0 && p.0 >= a.0.min(b.0) && p.0 <= a.0.max(b.0) && p.1 >= a.1.min(b.1) && p.1 <= a.1.max(b.1)
}
pub fn cross(a: I, b: I) -> i128 { a.0 as i128 * b.1 as i128 - a.1 as i128 * b.0 as i128 }
pub fn dot(a: I, b: I) -> i128 { a.0 as i128 * b.0 as i128 + a.1 as i128 * b.1 as i128 }
pub fn sub(a: I, b: I) -> I { (a.0 - b.0, a.1 - b.1) }
pub fn add(a: I, b: I) -> I { (a.0 + b.0, a.1 + b.1) }

/// do two closed segments (possibly degenerate) share a point?
pub fn segs_meet(a: I, b: I, c: I, d: I) -> bool {
    if on_seg(a, c, d) || on_seg(b, c, d) || on_seg(c, a, b) || on_seg(d, a, b) { return true; }
    let (o1, o2, o3, o4) = (orient_i(a, b, c), orient_i(a, b, d), orient_i(c, d, a), orient_i(c, d, b));
    o1 * o2 < 0 && o3 * o4 < 0
}
/// intersection of the lines ab and cd: (x numerator, y numerator, denominator), None if parallel
pub fn lines_cross(a: I, b: I, c: I, d: I) -> Option<(i128, i128, i128)> {
    let (u, v) = (sub(b, a), sub(d, c));
    let w = cross(u, v);
    if w == 0 { return None; }
    let t = cross(sub(c, a), v);
    Some((a.0 as i128 * w + u.0 as i128 * t, a.1 as i128 * w + u.1 as i128 * t, w))
}
pub fn q(n: i128, d: i128) -> f64 { n as f64 / d as f64 }
pub fn sq(a: I) -> i128 { dot(a, a) }

/// squared distance from p to the closed segment ab as a fraction
pub fn dist2_ps(p: I, a: I, b: I) -> (i128, i128) {
    let u = sub(b, a);
    let l = sq(u);
    let s = dot(sub(p, a), u);
    if l == 0 || s <= 0 { return (sq(sub(p, a)), 1); }
    if s >= l { return (sq(sub(p, b)), 1); }
    let k = cross(u, sub(p, a));
    (k * k, l)
}
/// the same for coordinates too large to square, correctly to a few units
pub fn dist_ps(p: I, a: I, b: I) -> f64 {
    let u = sub(b, a);
    let l = sq(u);
    let s = dot(sub(p, a), u);
    if l == 0 || s <= 0 { return (sq(sub(p, a)) as f64).sqrt(); }
    if s >= l { return (sq(sub(p, b)) as f64).sqrt(); }
    cross(u, sub(p, a)).unsigned_abs() as f64 / (l as f64).sqrt()
}
pub fn dist_ss(a: I, b: I, c: I, d: I) -> f64 {
    if segs_meet(a, b, c, d) { return 0.0; }
    dist_ps(a, c, d).min(dist_ps(b, c, d)).min(dist_ps(c, a, b)).min(dist_ps(d, a, b))
}
pub fn less(a: (i128, i128), b: (i128, i128)) -> bool { a.0 * b.1 < b.0 * a.1 }
pub fn dist2_ss(a: I, b: I, c: I, d: I) -> (i128, i128) {
    if segs_meet(a, b, c, d) { return (0, 1); }
    let mut m = dist2_ps(a, c, d);
    for x in [dist2_ps(b, c, d), dist2_ps(c, a, b), dist2_ps(d, a, b)] { if less(x, m) { m = x; } }
    m
}
/// lattice point number k of an n x n lattice with lower left corner (o,o)
pub fn lat(k: usize, n: usize, o: i64) -> I { ((k % n) as i64 + o, (k / n) as i64 + o) }
/// twice the clockwise-positive area of a closed ring
pub fn area2(r: &[I]) -> i128 { -r.windows(2).map(|w| cross(w[0], w[1])).sum::<i128>() }
/// closed, no repeated points, edges meet only at shared end points
pub fn simple_ring(v: &[I]) -> bool {
    if v.len() < 4 || v[0] != v[v.len() - 1] { return false; }
    let n = v.len() - 1;
    for i in 0..n { for j in i + 1..n {
        let (a, b, c, d) = (v[i], v[i + 1], v[j], v[j + 1]);
        if a == b || c == d { return false; }
        if j == i + 1 { if on_seg(d, a, b) || on_seg(a, c, d) { return false; } }
        else if i == 0 && j == n - 1 { if on_seg(c, a, b) || on_seg(b, c, d) { return false; } }
        else if segs_meet(a, b, c, d) { return false; }
    } }
    true
}
/// all simple closed rings with lo..=hi distinct vertices on an n x n lattice
pub fn simple_rings(n: usize, lo: usize, hi: usize) -> Vec<Vec<I>> {
    fn go(n: usize, lo: usize, hi: usize, cur: &mut Vec<I>, out: &mut Vec<Vec<I>>) {
        if cur.len() >= lo { let mut r = cur.clone(); r.push(r[0]); if simple_ring(&r) { out.push(r); } }
        if cur.len() == hi { return; }
        for k in 0..n * n { let p = lat(k, n, 0); if !cur.contains(&p) { cur.push(p); go(n, lo, hi, cur, out); cur.pop(); } }
    }
    let mut out = vec![];
    go(n, lo, hi, &mut vec![], &mut out);
    out
}
/// sizes just past what eight and sixteen bits (signed or not) can count, and some between
pub const HUGE: [usize; 9] = [257, 300, 513, 1025, 4097, 32769, 40000, 65537, 70001];
/// positions worth a special element among n
pub fn spots(n: usize) -> Vec<usize> {
    let mut v = vec![0, 1, 127, 128, 254, 255, 256, 257, 511, 512, n / 3, n / 2, 32767, 32768, 65534, 65535, 65536, n - 2, n - 1];
    v.retain(|k| *k < n);
    v.sort();
    v.dedup();
    v
}
/// (size, position) for the sizes up to a limit
pub fn huge(max: usize) -> Vec<(usize, usize)> { HUGE.iter().filter(|n| **n <= max).flat_map(|n| spots(*n).into_iter().map(move |s| (*n, s))).collect() }

/// points off every lattice: differences and products of their ordinates are rounded
pub const DEC: [P; 16] = [(0.1, 0.2), (-0.3, 0.7), (1.1, -2.3), (1e-3, 3.3), (123.456, -78.9), (1e6 + 0.1, 0.3), (-7e-9, 1.0 / 3.0), (0.30000000000000004, 0.1), (5.55, 1e5 / 7.0), (-2.2, -1.7), (1.1, 4.9), (0.1, -1e-7), (1e9 / 3.0, -1e9 / 7.0), (-0.7, 0.7), (-1e4 / 3.0, 0.3), (0.3, 0.3)];

/// exact squared distance of p from the segment ab
pub fn d2(p: P, a: P, b: P) -> Rat {
    let d = |a: f64, b: f64| Dy::new(a).sub(&Dy::new(b));
    let (ux, uy, vx, vy) = (d(b.0, a.0), d(b.1, a.1), d(p.0, a.0), d(p.1, a.1));
    let l = ux.sq().add(&uy.sq());
    let t = ux.mul(&vx).add(&uy.mul(&vy));
    if l.is_zero() || t.sign() <= 0 { return Rat::dy(vx.sq().add(&vy.sq())); }
    if t >= l { return Rat::dy(d(p.0, b.0).sq().add(&d(p.1, b.1).sq())); }
    Rat::new(ux.mul(&vy).sub(&uy.mul(&vx)).sq(), l)
}
/// do the closed segments share a point
pub fn segs_share(s: [P; 4]) -> bool {
    let o = |a: usize, b: usize, c: usize| orient(s[a], s[b], s[c]);
    let inb = |p: P, a: P, b: P| p.0 >= a.0.min(b.0) && p.0 <= a.0.max(b.0) && p.1 >= a.1.min(b.1) && p.1 <= a.1.max(b.1);
    let (o1, o2, o3, o4) = (o(0, 1, 2), o(0, 1, 3), o(2, 3, 0), o(2, 3, 1));
    (o1 == 0 && inb(s[2], s[0], s[1])) || (o2 == 0 && inb(s[3], s[0], s[1])) || (o3 == 0 && inb(s[0], s[2], s[3])) || (o4 == 0 && inb(s[1], s[2], s[3]))
        || (o1 * o2 < 0 && o3 * o4 < 0)
}
