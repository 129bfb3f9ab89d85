// P09 Envelopes form an exact rectangle algebra
use geos_rs::verif::*;
use geosmc::{ensure, exact::*, mc::*, num::*};
use std::hash::{Hash, Hasher};
type R = (f64, f64, f64, f64); // x0 x1 y0 y1
type M = Option<R>;
fn c(x: f64, y: f64) -> Coordinate { Coordinate::new_xyz(x, y, 9.0) }
fn mk(m: &M, form: usize) -> Envelope {
    match m {
        None => Envelope::default(),
        Some((a, b, p, q)) => match form % 7 {
            0 => Envelope::new_xy(*a, *b, *p, *q),
            1 => Envelope::new_xy(*b, *a, *q, *p),
            2 => Envelope::new_coordinates(&c(*a, *p), &c(*b, *q)),
            3 => Envelope::new_coordinates(&c(*b, *p), &c(*a, *q)),
            4 => { let mut e = Envelope::new_coordinate(&c(*b, *q)); e.expand_to_include_xy(*a, *p); e }
            5 => Envelope::new_envelope(&Envelope::new_xy(*a, *b, *q, *p)),
            _ => { let mut e = Envelope::default(); e.init(&Envelope::new_xy(*b, *a, *p, *q)); e.copy() }
        },
    }
}
fn isect(a: &M, b: &M) -> M {
    let (a, b) = ((*a)?, (*b)?);
    let r = (a.0.max(b.0), a.1.min(b.1), a.2.max(b.2), a.3.min(b.3));
    if r.0 <= r.1 && r.2 <= r.3 { Some(r) } else { None }
}
fn hull(a: &M, b: &M) -> M {
    match (a, b) { (None, x) => *x, (x, None) => *x, (Some(a), Some(b)) => Some((a.0.min(b.0), a.1.max(b.1), a.2.min(b.2), a.3.max(b.3))) }
}
fn grow(a: &M, dx: f64, dy: f64) -> M { let a = (*a)?; let r = (a.0 - dx, a.1 + dx, a.2 - dy, a.3 + dy); if r.0 > r.1 || r.2 > r.3 { None } else { Some(r) } }
fn shift(a: &M, dx: f64, dy: f64) -> M { let a = (*a)?; Some((a.0 + dx, a.1 + dx, a.2 + dy, a.3 + dy)) }
fn covers(a: &M, b: &M) -> bool { match (a, b) { (Some(a), Some(b)) => b.0 >= a.0 && b.1 <= a.1 && b.2 >= a.2 && b.3 <= a.3, _ => false } }
fn meets(a: &M, b: &M) -> bool { isect(a, b).is_some() }
fn d1(x: f64, y: f64) -> f64 { Dy::new(x).sub(&Dy::new(y)).f64() }
fn hyp(a: f64, b: f64) -> f64 { let (h, l) = (a.max(b), a.min(b)); if h == 0.0 { 0.0 } else { h * (1.0 + (l / h) * (l / h)).sqrt() } }
fn holds(e: &Envelope, m: &M) -> bool {
    match m {
        None => e.is_null(),
        Some(r) => !e.is_null() && e.get_min_x() == r.0 && e.get_max_x() == r.1 && e.get_min_y() == r.2 && e.get_max_y() == r.3,
    }
}
fn sh(e: &Envelope) -> String { format!("{}[{}:{},{}:{}]", if e.is_null() { "null" } else { "" }, e.get_min_x(), e.get_max_x(), e.get_min_y(), e.get_max_y()) }
fn unary(e: &Envelope, m: &M, x: &mut Ctx) -> Res {
    ensure!(holds(e, m), "envelope is {} but the model says {:?}", sh(e), m);
    let (w, h) = m.map(|r| (d1(r.1, r.0), d1(r.3, r.2))).unwrap_or((0.0, 0.0));
    let t = |g: f64, w: f64, nm: &str| -> Res { ensure!(g == w || (g - w).abs() <= 1e-15 * w.abs() * 4.0, "{} of {:?} = {:e} not {:e}", nm, m, g, w); Ok(()) };
    t(e.get_width(), w, "width")?;
    t(e.get_height(), h, "height")?;
    t(e.get_area(), w * h, "area")?;
    t(e.min_extent(), w.min(h), "min_extent")?;
    t(e.max_extent(), w.max(h), "max_extent")?;
    t(e.get_diameter(), hyp(w, h), "diameter")?;
    match (e.centre(), m) {
        (None, None) => {}
        (Some(g), Some(r)) => { let f = |a: f64, b: f64| Dy::new(a).add(&Dy::new(b)).half().f64();
            ensure!((g.x - f(r.0, r.1)).abs() <= r.0.abs().max(r.1.abs()) * 3e-16 && (g.y - f(r.2, r.3)).abs() <= r.2.abs().max(r.3.abs()) * 3e-16, "centre of {:?} = ({:e},{:e})", m, g.x, g.y) }
        (g, _) => return Err(format!("centre of {:?} = {:?}", m, g.map(|g| (g.x, g.y)))),
    }
    x.t(11);
    Ok(())
}
fn points(e: &Envelope, m: &M, v: &[f64], x: &mut Ctx) -> Res {
    for px in v { for py in v {
        let (px, py) = (*px, *py);
        let w = covers(m, &Some((px, px, py, py)));
        let p = c(px, py);
        let g = [e.intersects_xy(px, py), e.intersects_coordinate(&p), e.overlaps_xy(px, py), e.overlaps_coordinate(&p), e.contains_xy(px, py), e.contains_coordinate(&p), e.covers_xy(px, py), e.covers_coordinate(&p)];
        ensure!(g.iter().all(|b| *b == w), "point ({},{}) in {:?} is {} but [intersects xy,c overlaps xy,c contains xy,c covers xy,c] = {:?}", px, py, m, w, g);
        x.t(8);
    } }
    Ok(())
}
fn binary(e: &Envelope, m: &M, f: &Envelope, n: &M, x: &mut Ctx) -> Res {
    let i = isect(m, n);
    x.out(match (m, n) { (None, _) | (_, None) => "null operand", _ => if i.is_some() { "intersecting" } else { "disjoint" } });
    let g = e.intersection_envelope(f);
    ensure!(holds(&g, &i), "intersection of {:?} and {:?} = {} not {:?}", m, n, sh(&g), i);
    ensure!(e.intersects_envelope(f) == i.is_some() && e.overlaps_envelope(f) == i.is_some() && e.disjoint_envelope(f) == i.is_none(), "intersects/overlaps/disjoint of {:?} and {:?} should be {}", m, n, i.is_some());
    ensure!(e.covers_envelope(f) == covers(m, n) && e.contains_envelope(f) == covers(m, n), "covers/contains of {:?} and {:?} should be {}", m, n, covers(m, n));
    ensure!(e.contains_properly(f) == (covers(m, n) && m != n), "contains_properly of {:?} and {:?} = {}", m, n, e.contains_properly(f));
    ensure!(e.equals(f) == (m == n), "equals of {:?} and {:?} = {}", m, n, e.equals(f));
    let key = |m: &M| m.map(|r| [r.0, r.2, r.1, r.3]);
    let o = match (key(m), key(n)) { (None, None) => 0, (None, _) => -1, (_, None) => 1, (Some(a), Some(b)) => a.partial_cmp(&b).map(|o| o as i32).unwrap_or(0) };
    ensure!(e.compare_to_envelope(f).signum() == o, "compare of {:?} and {:?} = {} not {}", m, n, e.compare_to_envelope(f), o);
    if let (Some(a), Some(b)) = (m, n) {
        let ax = |a0: f64, a1: f64, b0: f64, b1: f64| if a1 < b0 { d1(b0, a1) } else if b1 < a0 { d1(a0, b1) } else { 0.0 };
        let w = hyp(ax(a.0, a.1, b.0, b.1), ax(a.2, a.3, b.2, b.3));
        let g = e.distance_envelope(f);
        ensure!(g == w || (g - w).abs() <= 1e-15 * w, "distance of {:?} and {:?} = {:e} not {:e}", m, n, g, w);
        // two points stand for their bounding box
        for (p, q) in [((b.0, b.2), (b.1, b.3)), ((b.1, b.2), (b.0, b.3)), ((b.0, b.3), (b.1, b.2)), ((b.1, b.3), (b.0, b.2))] {
            ensure!(e.intersects_coordinate_ab(&c(p.0, p.1), &c(q.0, q.1)) == i.is_some(), "{:?} with point pair {:?} {:?}", m, p, q);
            ensure!(Envelope::intersects_4(&c(a.0, a.3), &c(a.1, a.2), &c(p.0, p.1), &c(q.0, q.1)) == i.is_some(), "box test of {:?} and point pair {:?} {:?}", m, p, q);
            x.t(2);
        }
    } else if n.is_some() {
        ensure!(!e.intersects_coordinate_ab(&c(0.0, 0.0), &c(-1.0, -1.0)), "null envelope meets a point pair");
    }
    let mut u = *e;
    u.expand_to_include_envelope(f);
    ensure!(holds(&u, &hull(m, n)), "{:?} expanded by {:?} = {}", m, n, sh(&u));
    x.t(11);
    Ok(())
}

#[derive(Clone)]
struct St { e: Envelope, m: M }
impl St { fn k(&self) -> [u64; 6] { let r = self.m.unwrap_or((0.5, 0.5, 0.5, 0.5)); let e = &self.e;
    let raw = if e.is_null() { (e.get_min_x().to_bits().wrapping_mul(31) ^ e.get_max_x().to_bits()).wrapping_mul(31) ^ e.get_min_y().to_bits().wrapping_mul(7) ^ e.get_max_y().to_bits() } else { 0 };
    [r.0.to_bits(), r.1.to_bits(), r.2.to_bits(), r.3.to_bits(), e.is_null() as u64, raw] } }
impl PartialEq for St { fn eq(&self, o: &St) -> bool { self.k() == o.k() } }
impl Eq for St {}
impl Hash for St { fn hash<H: Hasher>(&self, h: &mut H) { self.k().hash(h) } }
impl std::fmt::Debug for St { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{:?}", self.m) } }

#[derive(Clone, Copy, Debug)]
enum Op { Xy(f64, f64), Pt(f64, f64), Env(M), By(f64), Delta(f64, f64), Move(f64, f64), Cap(M), Null, Init(M), Copy }
fn ops(wide: bool) -> Vec<Op> {
    let mut v = vec![Op::Xy(0.0, 0.0), Op::Xy(2.0, 1.0), Op::Pt(-1.0, 2.0), Op::Pt(1.0, -1.0), Op::Env(None), Op::Env(Some((0.0, 1.0, 1.0, 3.0))), Op::Env(Some((-2.0, -2.0, 0.0, 1.0))),
        Op::By(1.0), Op::By(-1.0), Op::Delta(1.0, 0.0), Op::Delta(-0.5, 1.0), Op::Delta(1.0, -1.0), Op::Move(1.0, -1.0), Op::Move(-2.0, 0.5),
        Op::Cap(None), Op::Cap(Some((0.0, 2.0, -1.0, 1.0))), Op::Cap(Some((1.0, 3.0, 1.0, 2.0))), Op::Null, Op::Init(None), Op::Init(Some((1.0, 2.0, 0.0, 0.0))), Op::Copy];
    if wide { v.extend([Op::Xy(-1.0, -2.0), Op::Pt(3.0, 3.0), Op::By(0.5), Op::By(-0.5), Op::Delta(-1.0, -1.0), Op::Delta(0.0, -0.5), Op::Move(0.0, 1.0), Op::Move(-1.0, -1.0), Op::Cap(Some((-1.0, 1.0, -1.0, 0.0))), Op::Env(Some((-1.0, 3.0, -3.0, -1.0)))]); }
    v
}
fn step(e: &mut Envelope, m: &M, o: &Op) -> M {
    match o {
        Op::Xy(a, b) => { e.expand_to_include_xy(*a, *b); hull(m, &Some((*a, *a, *b, *b))) }
        Op::Pt(a, b) => { e.expand_to_include_coordinate(&c(*a, *b)); hull(m, &Some((*a, *a, *b, *b))) }
        Op::Env(n) => { e.expand_to_include_envelope(&mk(n, 1)); hull(m, n) }
        Op::By(d) => { e.expand_by(*d); grow(m, *d, *d) }
        Op::Delta(a, b) => { e.expand_by_delta_xy(*a, *b); grow(m, *a, *b) }
        Op::Move(a, b) => { e.translate(*a, *b); shift(m, *a, *b) }
        Op::Cap(n) => { *e = e.intersection_envelope(&mk(n, 2)); isect(m, n) }
        Op::Null => { e.set_to_null(); None }
        Op::Init(n) => { e.init(&mk(n, 3)); *n }
        Op::Copy => { *e = e.copy(); *m }
    }
}

fn main() {
    let mut k = Check::new("P09");
    let grid = [-2.5, -2.0, -1.0, 0.0, 0.5, 1.0, 2.0, 3.0];
    // reachable states of one envelope
    let lim = k.q(4.0, 6.0);
    let os = ops(k.thorough);
    let others: Vec<M> = vec![None, Some((0.0, 1.0, 0.0, 1.0)), Some((-1.0, 2.0, 0.5, 0.5)), Some((2.0, 2.0, 1.0, 1.0)), Some((-9.0, 9.0, -9.0, 9.0)), Some((3.0, 4.0, -1.0, 0.0))];
    let init: Vec<St> = vec![None, Some((0.0, 0.0, 0.0, 0.0)), Some((0.0, 2.0, 1.0, 2.0)), Some((-1.0, -1.0, -1.0, 1.0))].into_iter().flat_map(|m| (0..7).map(move |f| St { e: mk(&m, f), m })).collect();
    k.bfs("reachable envelopes", init, 64, |s, x| {
        unary(&s.e, &s.m, x)?;
        points(&s.e, &s.m, &grid, x)?;
        for n in &others { let f = mk(n, 0); binary(&s.e, &s.m, &f, n, x)?; binary(&f, n, &s.e, &s.m, x)?; }
        binary(&s.e, &s.m, &s.e, &s.m, x)?;
        let mut out = vec![];
        for o in &os {
            let mut e = s.e;
            let m = step(&mut e, &s.m, o);
            x.t(1);
            ensure!(holds(&e, &m), "{:?} on {:?} gives {} but the model {:?}", o, s.m, sh(&e), m);
            if let Some(r) = m { if r.0.abs() > lim || r.1.abs() > lim || r.2.abs() > lim || r.3.abs() > lim { continue; } }
            out.push((format!("{:?}", o), St { e, m }));
        }
        Ok(out)
    });
    // operation histories, unmerged
    let l = k.q(4usize, 5);
    let hs = ops(false);
    k.family("operation histories", pow(hs.len(), l) * 3, |i, x| {
        let mut d = Dec(i);
        let mut m: M = *d.of(&[None, Some((0.0, 0.0, 0.0, 0.0)), Some((-1.0, 1.0, 0.0, 2.0))]);
        let mut e = mk(&m, i as usize);
        let h: Vec<Op> = (0..l).map(|_| *d.of(&hs)).collect();
        for o in &h { m = step(&mut e, &m, o); x.t(1); ensure!(holds(&e, &m), "history {:?}: {} but the model {:?}", h, sh(&e), m); }
        x.note(|| format!("{:?} -> {:?}", h, m));
        unary(&e, &m, x)?;
        points(&e, &m, &[-1.0, 0.0, 1.5], x)?;
        let n = others[(i % 6) as usize];
        binary(&e, &m, &mk(&n, 0), &n, x)
    });
    // all pairs of lattice rectangles, null and degenerate ones included
    let n = k.q(5usize, 7);
    let iv: Vec<(f64, f64)> = (0..n).flat_map(|a| (a..n).map(move |b| (a as f64 - 1.0, b as f64 - 1.0))).collect();
    let rs: Vec<M> = std::iter::once(None).chain(iv.iter().flat_map(|a| iv.iter().map(move |b| Some((a.0, a.1, b.0, b.1))))).collect();
    k.family("pairs of rectangles", pow(rs.len(), 2) * 7, |i, x| {
        let mut d = Dec(i);
        let (a, b) = (*d.of(&rs), *d.of(&rs));
        let f = d.take(7);
        let (e, g) = (mk(&a, f), mk(&b, f + 3));
        x.note(|| format!("{:?} {:?} form {}", a, b, f));
        unary(&e, &a, x)?;
        if f == 0 { points(&e, &a, &[-1.5, -1.0, 0.0, 0.5, 3.0], x)?; }
        binary(&e, &a, &g, &b, x)
    });
    // extreme, signed-zero and neighbouring ordinates
    let al = vec![-1e300, -1.0, ulp(-1.0, 1), -0.0, 0.0, 5e-324, 1.0, ulp(1.0, 1), 1e16, 1e16 + 2.0, 1e300];
    let m = al.len();
    let quads = pow(m, 4);
    let probe: Vec<R> = vec![(0.0, 1.0, 0.0, 1.0), (-1.0, -0.0, 1.0, 1.0), (ulp(1.0, 1), 1e16, -1e300, 1e300), (-1e300, -1.0, 5e-324, 2.0), (1.0, 1.0, 1.0, 1.0)];
    k.family("rectangles with extreme ordinates", quads * probe.len() as u64, |i, x| {
        let mut d = Dec(i);
        let v = [0; 4].map(|_| *d.of(&al));
        let n: M = Some(*d.of(&probe));
        let r: M = Some((v[0].min(v[1]), v[0].max(v[1]), v[2].min(v[3]), v[2].max(v[3])));
        let e = match i % 3 { 0 => Envelope::new_xy(v[0], v[1], v[2], v[3]), 1 => Envelope::new_coordinates(&c(v[0], v[2]), &c(v[1], v[3])), _ => { let mut e = Envelope::default(); e.expand_to_include_coordinate(&c(v[0], v[3])); e.expand_to_include_xy(v[1], v[2]); e } };
        x.note(|| format!("{:?} {:?}", r, n));
        unary(&e, &r, x)?;
        points(&e, &r, &[-1.0, -0.0, 5e-324, 1.0, 1e16], x)?;
        binary(&e, &r, &mk(&n, 0), &n, x)?;
        binary(&mk(&n, 0), &n, &e, &r, x)
    });
    // raw box tests
    let n = k.q(4usize, 5);
    k.family("raw box tests", pow(n * n, 4), |i, x| {
        let mut d = Dec(i);
        let p: Vec<(f64, f64)> = (0..4).map(|_| { let v = d.take(n * n); ((v % n) as f64 - 1.0, (v / n) as f64 - 1.0) }).collect();
        let bb = |a: (f64, f64), b: (f64, f64)| Some((a.0.min(b.0), a.0.max(b.0), a.1.min(b.1), a.1.max(b.1)));
        let q: Vec<Coordinate> = p.iter().map(|p| c(p.0, p.1)).collect();
        x.note(|| format!("{:?}", p));
        let (b1, b2) = (bb(p[0], p[1]), bb(p[2], p[3]));
        let w = meets(&b1, &b2);
        x.out(if w { "intersecting" } else { "disjoint" });
        ensure!(Envelope::intersects_4(&q[0], &q[1], &q[2], &q[3]) == w, "intersects_4 {:?} is not {}", p, w);
        ensure!(Envelope::new_coordinates(&q[0], &q[1]).intersects_coordinate_ab(&q[2], &q[3]) == w, "intersects_coordinate_ab {:?} is not {}", p, w);
        let w = covers(&b1, &bb(p[2], p[2]));
        ensure!(Envelope::intersects_3(&q[0], &q[1], &q[2]) == w, "intersects_3 {:?} is not {}", p, w);
        x.t(3);
        Ok(())
    });
    // every way two intervals can lie, in both axes, at every scale and offset
    let allen: [[i64; 4]; 13] = [[0, 1, 2, 3], [0, 1, 1, 2], [0, 2, 1, 3], [0, 1, 0, 2], [1, 2, 0, 3], [1, 2, 0, 2], [0, 1, 0, 1], [0, 2, 0, 1], [0, 3, 1, 2], [0, 2, 1, 2], [1, 3, 0, 2], [1, 2, 0, 1], [2, 3, 0, 1]];
    let mut places: Vec<(f64, f64)> = (-1000..=1000).map(|e| (2f64.powi(e), 0.0)).collect();
    for e in 1..=50 { for s in [1.0, -1.0] { for sc in [1.0, 2f64.powi(-200), 2f64.powi(300)] { places.push((sc, s * 2f64.powi(e) * sc)); } } }
    k.family("interval relations at every scale and offset", 169 * places.len() as u64 * 2, |i, x| {
        let mut d = Dec(i);
        let (a, b) = (*d.of(&allen), *d.of(&allen));
        let neg = d.bit();
        let (s, o) = *d.of(&places);
        let s = if neg { -s } else { s };
        let f = |v: i64| v as f64 * s + o;
        let r = |p: f64, q: f64, u: f64, v: f64| Some((p.min(q), p.max(q), u.min(v), u.max(v)));
        let m: M = r(f(a[0]), f(a[1]), f(b[0]), f(b[1]));
        let n: M = r(f(a[2]), f(a[3]), f(b[2]), f(b[3]));
        x.note(|| format!("{:?} {:?}", m, n));
        let (e, g) = (mk(&m, i as usize), mk(&n, (i / 7) as usize));
        unary(&e, &m, x)?;
        points(&e, &m, &[f(0), f(2), f(1) + s * 0.5], x)?;
        binary(&e, &m, &g, &n, x)?;
        // and one step of each kind from there
        for op in [Op::By(s.abs()), Op::By(-s.abs()), Op::Delta(-s, s), Op::Delta(s * 0.5, -s * 0.5), Op::Move(s, -s), Op::Cap(n), Op::Env(n), Op::Xy(f(3), f(0)), Op::Pt(f(-1), f(2))] {
            let mut e2 = e;
            let m2 = step(&mut e2, &m, &op);
            ensure!(holds(&e2, &m2), "{:?} on {:?} gives {} but the model {:?}", op, m, sh(&e2), m2);
            x.t(1);
        }
        // and from nothing
        for op in [Op::Xy(f(3), f(0)), Op::Pt(f(-1), f(2)), Op::Env(n), Op::Init(n), Op::Cap(n), Op::By(s.abs())] {
            let mut e2 = Envelope::default();
            let m2 = step(&mut e2, &None, &op);
            ensure!(holds(&e2, &m2), "{:?} on a null envelope gives {} but the model {:?}", op, sh(&e2), m2);
            x.t(1);
        }
        Ok(())
    });
    // edges one last bit apart, touching, or overlapping by one last bit
    k.family("edges within a last bit", 2001 * 4 * 25, |i, x| {
        let mut d = Dec(i);
        let (dx, dy) = (d.take(5) as i64 - 2, d.take(5) as i64 - 2);
        let (sx, sy) = (if d.bit() { -1.0 } else { 1.0 }, if d.bit() { -1.0 } else { 1.0 });
        let v = 2f64.powi(d.take(2001) as i32 - 1000);
        let (p, q) = (sx * v, sy * v);
        let (p2, q2) = (ulp(p, dx), ulp(q, dy));
        let m: M = Some((p - v, p, q - v, q));
        let n: M = Some((p2, p2 + 2.0 * v, q2, q2 + 2.0 * v));
        x.note(|| format!("{:?} {:?}", m, n));
        binary(&mk(&m, i as usize), &m, &mk(&n, 0), &n, x)?;
        binary(&mk(&n, 0), &n, &mk(&m, i as usize), &m, x)?;
        points(&mk(&m, 0), &m, &[p2, q2, p, q], x)
    });
    // every operation on rectangles whose ordinates differ in the last bits
    let bs: Vec<f64> = k.q(vec![1.0, -0.1, 1e15 + 0.375, 7e-9, -1e200 / 3.0], vec![1.0, -0.1, 1e15 + 0.375, 7e-9, -1e200 / 3.0, 0.7, -3e7 / 7.0, 1e-300, 16777217.0, -5e-324, 2e-308]);
    let us: Vec<i64> = k.q(vec![-1, 0, 1, 300], vec![-1, 0, 1, 2, 300]);
    let nu = us.len();
    let pr: Vec<(usize, usize)> = (0..nu).flat_map(|a| (a..nu).map(move |b| (a, b))).collect();
    k.family("every operation in the last bits", pow(bs.len(), 2) * pow(pr.len(), 4), |i, x| {
        let mut d = Dec(i);
        let (bx, by) = (*d.of(&bs), *d.of(&bs));
        let mut iv = |b: f64| { let (p, q) = *d.of(&pr); let (p, q) = (ulp(b, us[p]), ulp(b, us[q])); (p.min(q), p.max(q)) };
        let (mx, my, nx, ny) = (iv(bx), iv(by), iv(bx), iv(by));
        let (m, n): (M, M) = (Some((mx.0, mx.1, my.0, my.1)), Some((nx.0, nx.1, ny.0, ny.1)));
        x.note(|| format!("{:?} {:?}", m, n));
        let (e, g) = (mk(&m, i as usize), mk(&n, i as usize / 7));
        unary(&e, &m, x)?;
        binary(&e, &m, &g, &n, x)?;
        points(&e, &m, &[nx.0, ny.1], x)?;
        for (p, q, w) in [((mx.0, my.0), (mx.1, my.1), (nx.0, ny.0)), ((mx.1, my.0), (mx.0, my.1), (nx.1, ny.0)), ((mx.1, my.1), (mx.0, my.0), (nx.0, ny.1))] {
            x.t(1);
            ensure!(Envelope::intersects_3(&c(p.0, p.1), &c(q.0, q.1), &c(w.0, w.1)) == covers(&m, &Some((w.0, w.0, w.1, w.1))), "{:?} in the box of {:?} {:?}", w, p, q);
        }
        let (hx, hy) = ((mx.1 - mx.0) / 2.0, (my.1 - my.0) / 2.0);
        for op in [Op::By(-hx), Op::By(-ulp(hx, 1)), Op::By(-hy), Op::By(hy), Op::Delta(-hx, -hy), Op::Delta(-ulp(hx, 1), hy), Op::Delta(hx, -2.0 * hy), Op::Delta(-2.0 * hx, 0.0), Op::Move(hx, -hy), Op::Move(bx, by), Op::Move(-bx, -by),
            Op::Cap(n), Op::Env(n), Op::Init(n), Op::Copy, Op::Null, Op::Xy(nx.0, ny.1), Op::Pt(nx.1, ny.0)] {
            let mut e2 = e;
            let m2 = step(&mut e2, &m, &op);
            ensure!(holds(&e2, &m2), "{:?} on {:?} gives {} but the model {:?}", op, m, sh(&e2), m2);
            x.t(1);
        }
        let mut e2 = Envelope::default();
        e2.expand_to_include_envelope(&e);
        ensure!(holds(&e2, &m), "nothing expanded by {:?} is {}", m, sh(&e2));
        x.t(1);
        Ok(())
    });
    // shrunk by half an extent, or by a sliver more or less: exactly representable at every step
    let slv: Vec<f64> = std::iter::once(0.0).chain((8..=k.q(45, 50)).flat_map(|e| [2f64.powi(-e), -2f64.powi(-e)])).collect();
    k.family("shrunk by a sliver more or less than half", (slv.len() * slv.len()) as u64 * 5 * 5 * 3 * 3, |i, x| {
        let mut d = Dec(i);
        let (ex, ey) = (*d.of(&slv), *d.of(&slv));
        let (w, h) = (*d.of(&[0.0, 1.0, 2.0, 5.0, 6.5]), *d.of(&[0.0, 1.0, 2.0, 5.0, 6.5]));
        let (ox, oy) = *d.of(&[(0.0, 0.0), (-3.0, -1.0), (-1.0, 0.5)]);
        let s = *d.of(&[1.0, 2f64.powi(300), 2f64.powi(-70)]);
        let m: M = Some((ox * s, (ox + w) * s, oy * s, (oy + h) * s));
        x.note(|| format!("{:?} {:e} {:e}", m, ex, ey));
        let (dx, dy) = (-(w / 2.0 + ex) * s, -(h / 2.0 + ey) * s);
        for op in [Op::By(dx), Op::By(dy), Op::Delta(dx, dy), Op::Delta(dx, s), Op::Delta(s, dy), Op::Delta(dx, 0.0)] {
            let mut e = mk(&m, i as usize);
            let m2 = step(&mut e, &m, &op);
            ensure!(holds(&e, &m2), "{:?} on {:?} gives {} but the model {:?}", op, m, sh(&e), m2);
            x.out(if m2.is_none() { "vanished" } else { "still there" });
            x.t(1);
        }
        Ok(())
    });
    // long expansions: the extreme points anywhere in the list
    let n = k.q(90usize, 300);
    k.family("long expansions", (n * n) as u64 * 4, |i, x| {
        let mut d = Dec(i);
        let (a, b) = (d.take(n), d.take(n));
        let w = d.take(4);
        let len = a.max(b) + 1 + w;
        let mut e = Envelope::default();
        let mut m: M = None;
        for j in 0..len {
            let (mut px, mut py) = ((j % 7) as f64 * 0.25, (j % 5) as f64 * 0.25);
            if j == a { if w & 1 == 0 { px = 9.0 } else { px = -9.0 } }
            if j == b { if w & 2 == 0 { py = 8.0 } else { py = -8.0 } }
            if j & 1 == 0 { e.expand_to_include_xy(px, py) } else { e.expand_to_include_coordinate(&c(px, py)) }
            m = hull(&m, &Some((px, px, py, py)));
            x.t(1);
            ensure!(holds(&e, &m), "{} points of {}: {} but the model {:?}", j + 1, len, sh(&e), m);
        }
        x.note(|| format!("{} points {:?}", len, m));
        x.out("long");
        unary(&e, &m, x)
    });
    k.finish()
}
