// P10 Octagonal envelopes bound exactly what was added
use geos_rs::verif::*;
use geosmc::{ensure, geo::huge, mc::*};
use std::hash::{Hash, Hasher};
/// x, y, a = x+y, b = x-y: (min, max) each
type B = [(f64, f64); 4];
type M = Option<B>;
fn c(x: f64, y: f64) -> Coordinate { Coordinate::new_xyzm(x, y, 3.0, 4.0) }
fn pt(x: f64, y: f64) -> B { [(x, x), (y, y), (x + y, x + y), (x - y, x - y)] }
fn hull(a: &M, b: &M) -> M {
    match (a, b) {
        (None, x) => *x,
        (x, None) => *x,
        (Some(a), Some(b)) => { let mut r = *a; for k in 0..4 { r[k] = (a[k].0.min(b[k].0), a[k].1.max(b[k].1)); } Some(r) }
    }
}
fn rect(x0: f64, x1: f64, y0: f64, y1: f64) -> M { let mut m = None; for p in [(x0, y0), (x0, y1), (x1, y0), (x1, y1)] { m = hull(&m, &Some(pt(p.0, p.1))); } m }
/// Err: the outcome hangs on rounding
fn grow(m: &M, d: f64) -> Result<M, ()> {
    let Some(a) = m else { return Ok(None) };
    let mut r = *a;
    let mut null = false;
    for k in 0..4 {
        let e = if k < 2 { d } else { 2f64.sqrt() * d };
        r[k] = (a[k].0 - e, a[k].1 + e);
        let w = r[k].1 - r[k].0;
        // only exact when no square root is involved in the history of a non-diagonal bound
        if k >= 2 && w.abs() < 1e-9 { return Err(()); }
        if w < 0.0 { null = true; }
    }
    Ok(if null { None } else { Some(r) })
}
fn get(o: &OctagonalEnvelope) -> M {
    if o.is_null() { None } else { Some([(o.get_min_x(), o.get_max_x()), (o.get_min_y(), o.get_max_y()), (o.get_min_a(), o.get_max_a()), (o.get_min_b(), o.get_max_b())]) }
}
fn agrees(o: &OctagonalEnvelope, m: &M, tol: f64) -> bool {
    match (get(o), m) {
        (None, None) => true,
        (Some(g), Some(m)) => (0..4).all(|k| { let t = if k < 2 { 0.0 } else { tol }; (g[k].0 - m[k].0).abs() <= t && (g[k].1 - m[k].1).abs() <= t }),
        _ => false,
    }
}
fn queries(o: &OctagonalEnvelope, m: &M, pts: &[f64], x: &mut Ctx) -> Res {
    ensure!(o.is_valid(), "octagon {:?} is not valid", m);
    let g = get(o);
    for a in pts { for b in pts {
        let w = match g { None => false, Some(g) => { let p = pt(*a, *b); (0..4).all(|k| p[k].0 >= g[k].0 && p[k].0 <= g[k].1) } };
        ensure!(o.intersects_coordinate(&c(*a, *b)) == w, "octagon {:?} and point ({},{}): {}", g, a, b, !w);
        x.t(1);
    } }
    Ok(())
}
fn pair(o: &OctagonalEnvelope, p: &OctagonalEnvelope, x: &mut Ctx) -> Res {
    let (a, b) = (get(o), get(p));
    let (i, k) = match (a, b) { (Some(a), Some(b)) => ((0..4).all(|k| a[k].0 <= b[k].1 && b[k].0 <= a[k].1), (0..4).all(|k| b[k].0 >= a[k].0 && b[k].1 <= a[k].1)), _ => (false, false) };
    x.out(if a.is_none() || b.is_none() { "null operand" } else if k { "contained" } else if i { "intersecting" } else { "disjoint" });
    ensure!(o.intersects_octagonal_envelope(p) == i, "octagons {:?} and {:?} intersect: {}", a, b, !i);
    ensure!(o.contains_octagonal_envelope(p) == k, "octagon {:?} contains {:?}: {}", a, b, !k);
    x.t(2);
    Ok(())
}
#[derive(Clone, Copy, Debug)]
enum Op { Xy(f64, f64), Pt(f64, f64), Env(f64, f64, f64, f64), NullEnv, Oct(usize), Seq(usize), By(f64), Null, Copy }
fn line(k: usize) -> Vec<(f64, f64)> { [vec![], vec![(1.0, 2.0)], vec![(-1.0, 1.0), (2.0, -2.0), (0.0, 3.0)]][k].clone() }
fn oct(k: usize) -> (OctagonalEnvelope, M) {
    match k {
        0 => (OctagonalEnvelope::default(), None),
        1 => { let l = ls(2); (OctagonalEnvelope::new_with_line_string(&l), mline(2)) }
        _ => { let mut o = OctagonalEnvelope::new_with_coordinate(&c(-2.0, 1.0)); o.expand_by_distance(1.0); (o, grow(&Some(pt(-2.0, 1.0)), 1.0).unwrap()) }
    }
}
fn mline(k: usize) -> M { line(k).iter().fold(None, |m, p| hull(&m, &Some(pt(p.0, p.1)))) }
fn cs(k: usize) -> CoordinateArraySequence { CoordinateArraySequence::new_with_coordinates(&line(k).iter().map(|p| c(p.0, p.1)).collect()) }
fn ls(k: usize) -> LineString { LineString::new_from_coordinate_sequence(cs(k)) }
fn step(o: &mut OctagonalEnvelope, m: &M, op: &Op) -> Result<M, ()> {
    Ok(match op {
        Op::Xy(x, y) => { o.expand_to_include_xy(*x, *y); hull(m, &Some(pt(*x, *y))) }
        Op::Pt(x, y) => { o.expand_to_include_coordinate(&c(*x, *y)); hull(m, &Some(pt(*x, *y))) }
        Op::Env(a, b, p, q) => { o.expand_to_include_envelope(&Envelope::new_xy(*a, *b, *p, *q)); hull(m, &rect(*a, *b, *p, *q)) }
        Op::NullEnv => { o.expand_to_include_envelope(&Envelope::default()); *m }
        Op::Oct(k) => { let (p, n) = oct(*k); o.expand_to_include_octagonal_envelope(&p); hull(m, &n) }
        Op::Seq(k) => { o.expand_to_include_coordinate_array_sequence(&cs(*k)); hull(m, &mline(*k)) }
        Op::By(d) => { o.expand_by_distance(*d); grow(m, *d)? }
        Op::Null => { o.set_to_null(); None }
        Op::Copy => { *o = OctagonalEnvelope::new_with_octagonal_envelope(o); *m }
    })
}
fn ops(wide: bool) -> Vec<Op> {
    let mut v = vec![Op::Xy(0.0, 0.0), Op::Xy(3.0, 1.0), Op::Pt(-1.0, 2.0), Op::Pt(2.0, -3.0), Op::Env(0.0, 2.0, -1.0, 1.0), Op::Env(1.0, 1.0, 0.0, 3.0), Op::NullEnv,
        Op::Oct(0), Op::Oct(1), Op::Oct(2), Op::Seq(0), Op::Seq(1), Op::Seq(2), Op::By(1.0), Op::By(-1.0), Op::By(0.0), Op::Null, Op::Copy];
    if wide { v.extend([Op::By(0.5), Op::By(-0.5), Op::Xy(-3.0, -3.0), Op::Pt(0.25, 4.0), Op::Env(-2.0, -1.0, -3.0, -2.0)]); }
    v
}
#[derive(Clone)]
struct St { o: OctagonalEnvelope, m: M }
impl St { fn k(&self) -> Vec<u64> { match &self.m { None => vec![0], Some(b) => b.iter().flat_map(|p| [p.0.to_bits(), p.1.to_bits()]).collect() } } }
impl PartialEq for St { fn eq(&self, o: &St) -> bool { self.k() == o.k() } }
impl Eq for St {}
impl Hash for St { fn hash<H: Hasher>(&self, h: &mut H) { self.k().hash(h) } }
impl std::fmt::Debug for St { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{:?}", self.m) } }

fn main() {
    let mut k = Check::new("P10");
    let l = k.q(5usize, 6);
    let os = ops(k.thorough);
    let grid = [-3.0, -1.0, 0.0, 0.5, 2.0, 3.5];
    k.family("operation histories", pow(os.len(), l), |i, x| {
        let mut d = Dec(i);
        let h: Vec<Op> = (0..l).map(|_| *d.of(&os)).collect();
        let mut o = OctagonalEnvelope::default();
        let mut m: M = None;
        for op in &h {
            match step(&mut o, &m, op) { Ok(n) => m = n, Err(()) => return x.skip() }
            x.t(1);
            ensure!(agrees(&o, &m, 1e-12), "history {:?}: {:?} but the model {:?}", h, get(&o), m);
        }
        x.note(|| format!("{:?} -> {:?}", h, m));
        queries(&o, &m, &grid, x)?;
        for q in 0..3 { let p = oct(q).0; pair(&o, &p, x)?; pair(&p, &o, x)?; }
        pair(&o, &o, x)
    });
    // reachable octagons (merged by their model bounds), to exhaustion within the coordinate range
    let lim = k.q(6.0, 8.0);
    let depth = k.q(8usize, 12);
    let os = ops(false);
    k.bfs("reachable octagons", vec![St { o: OctagonalEnvelope::default(), m: None }, St { o: OctagonalEnvelope::new_with_coordinates(&c(1.0, 1.0), &c(-1.0, 0.0)), m: hull(&Some(pt(1.0, 1.0)), &Some(pt(-1.0, 0.0))) },
        St { o: OctagonalEnvelope::new_with_envelope(&Envelope::new_xy(0.0, 1.0, 0.0, 2.0)), m: rect(0.0, 1.0, 0.0, 2.0) }, St { o: OctagonalEnvelope::new_with_envelope(&Envelope::default()), m: None },
        St { o: OctagonalEnvelope::new_with_octagonal_envelope(&OctagonalEnvelope::default()), m: None }, St { o: OctagonalEnvelope::new_with_line_string(&ls(0)), m: None }], depth, |s, x| {
        ensure!(agrees(&s.o, &s.m, 1e-11), "{:?} but the model {:?}", get(&s.o), s.m);
        queries(&s.o, &s.m, &grid, x)?;
        for q in 0..3 { let p = oct(q).0; pair(&s.o, &p, x)?; pair(&p, &s.o, x)?; }
        let mut out = vec![];
        for op in &os {
            let mut o = s.o;
            let Ok(m) = step(&mut o, &s.m, op) else { continue };
            x.t(1);
            ensure!(agrees(&o, &m, 1e-11), "{:?} on {:?}: {:?} but the model {:?}", op, s.m, get(&o), m);
            if let Some(r) = m { if r.iter().any(|p| p.0.abs() > lim || p.1.abs() > lim) { continue; } }
            out.push((format!("{:?}", op), St { o, m }));
        }
        Ok(out)
    });
    // hulls of point sets, in every order and entry point
    let (n, p) = k.q((5usize, 4usize), (5, 5));
    k.family("hulls of point lists", seqs(n * n, 0, p), |i, x| {
        let mut d = Dec(i);
        let off = [0.0, 1e15, 0.1][(i % 3) as usize];
        let v: Vec<(f64, f64)> = seq(&mut d, n * n, 0, p).iter().map(|v| ((v % n) as f64 - 2.0 + off, (v / n) as f64 - 2.0)).collect();
        let m: M = v.iter().fold(None, |m, p| hull(&m, &Some(pt(p.0, p.1))));
        let s = CoordinateArraySequence::new_with_coordinates(&v.iter().map(|p| c(p.0, p.1)).collect());
        let mut a = OctagonalEnvelope::default();
        for q in &v { a.expand_to_include_xy(q.0, q.1); }
        let b = OctagonalEnvelope::new_with_line_string(&LineString::new_from_coordinate_sequence(s.copy()));
        let mut e = OctagonalEnvelope::default();
        e.expand_to_include_coordinate_array_sequence(&s);
        let mut f = OctagonalEnvelope::default();
        for q in v.iter().rev() { f.expand_to_include_octagonal_envelope(&OctagonalEnvelope::new_with_coordinate(&c(q.0, q.1))); }
        x.note(|| format!("{:?} -> {:?}", v, m));
        x.out(if m.is_some() { "hull" } else { "nothing" });
        for (nm, o) in [("points", a), ("line string", b), ("sequence", e), ("octagons", f)] {
            x.t(1);
            ensure!(agrees(&o, &m, 0.0), "hull of {:?} by {}: {:?} not {:?}", v, nm, get(&o), m);
            for q in &v { ensure!(o.intersects_coordinate(&c(q.0, q.1)), "hull of {:?} by {} misses its point {:?}", v, nm, q); }
        }
        if v.len() == 2 {
            let o = OctagonalEnvelope::new_with_coordinates(&c(v[0].0, v[0].1), &c(v[1].0, v[1].1));
            ensure!(agrees(&o, &m, 0.0), "hull of two points {:?}: {:?} not {:?}", v, get(&o), m);
            let o = OctagonalEnvelope::new_with_envelope(&Envelope::new_xy(v[0].0, v[1].0, v[0].1, v[1].1));
            let m = rect(v[0].0.min(v[1].0), v[0].0.max(v[1].0), v[0].1.min(v[1].1), v[0].1.max(v[1].1));
            ensure!(agrees(&o, &m, 0.0), "hull of the box {:?}: {:?} not {:?}", v, get(&o), m);
        }
        queries(&a, &m, &[-1.0 + off, 0.0, off, 0.5, 1.0], x)
    });
    // pairs of octagons
    let (n, p) = (3usize, 2usize);
    let sets: Vec<Vec<(f64, f64)>> = (0..seqs(n * n, 0, p)).map(|i| { let mut d = Dec(i); seq(&mut d, n * n, 0, p).iter().map(|v| ((v % n) as f64, (v / n) as f64)).collect() }).collect();
    let moves = [(0.0, 0.0), (1.0, 1.0), (2.5, -1.5), (0.5, 0.0)];
    let grows = [0.0, 0.25, 0.5];
    k.family("pairs of octagons", pow(sets.len(), 2) * 4 * 9, |i, x| {
        let mut d = Dec(i);
        let (a, b) = (d.of(&sets), d.of(&sets));
        let mv = *d.of(&moves);
        let (ga, gb) = (*d.of(&grows), *d.of(&grows));
        let mk = |v: &Vec<(f64, f64)>, mv: (f64, f64), g: f64| { let mut o = OctagonalEnvelope::default(); for p in v { o.expand_to_include_xy(p.0 + mv.0, p.1 + mv.1); } o.expand_by_distance(g); o };
        let (o, q) = (mk(a, (0.0, 0.0), ga), mk(b, mv, gb));
        x.note(|| format!("{:?} grown {} and {:?} moved {:?} grown {}", a, ga, b, mv, gb));
        pair(&o, &q, x)?;
        pair(&q, &o, x)
    });
    // every scale and offset (all sums and differences exact): hulls, points just inside and just outside each of the eight sides
    let mut places: Vec<(f64, f64, f64)> = (-1000..=1000).map(|e| (2f64.powi(e), 0.0, 0.0)).collect();
    for e in 1..=44 { for (sx, sy) in [(1.0, 0.0), (0.0, 1.0), (-1.0, 1.0), (-1.0, -1.0)] { for sc in [1.0, 2f64.powi(-200), 2f64.powi(300)] { places.push((sc, sx * sc * 2f64.powi(e), sy * sc * 2f64.powi(e))); } } }
    let sets: Vec<Vec<(f64, f64)>> = vec![vec![(0.0, 0.0)], vec![(0.0, 0.0), (4.0, 2.0)], vec![(0.0, 4.0), (4.0, 0.0)], vec![(0.0, 0.0), (4.0, 4.0)], vec![(2.0, 0.0), (4.0, 2.0), (2.0, 4.0), (0.0, 2.0)], vec![(1.0, 0.0), (4.0, 1.0), (3.0, 4.0), (0.0, 3.0)],
        vec![(0.0, 0.0), (4.0, 0.0), (0.0, 4.0)], vec![(-4.0, -1.0), (-1.0, -4.0), (-2.0, -2.0)]];
    k.family("octagons at every scale and offset", (sets.len() * sets.len() * places.len()) as u64 * 2, |i, x| {
        let mut d = Dec(i);
        let (a, b) = (d.of(&sets), d.of(&sets));
        let neg = d.bit();
        let (s, ox, oy) = *d.of(&places);
        let s = if neg { -s } else { s };
        let f = |v: &Vec<(f64, f64)>| -> Vec<(f64, f64)> { v.iter().map(|p| (p.0 * s + ox, p.1 * s + oy)).collect() };
        let (va, vb) = (f(a), f(b));
        let m = va.iter().fold(None, |m, p| hull(&m, &Some(pt(p.0, p.1))));
        let n = vb.iter().fold(None, |m, p| hull(&m, &Some(pt(p.0, p.1))));
        x.note(|| format!("{:?} and {:?}", va, vb));
        let seqf = |v: &Vec<(f64, f64)>| CoordinateArraySequence::new_with_coordinates(&v.iter().map(|p| c(p.0, p.1)).collect());
        let o = match i % 3 { 0 => { let mut o = OctagonalEnvelope::default(); o.expand_to_include_coordinate_array_sequence(&seqf(&va)); o }
            1 => OctagonalEnvelope::new_with_line_string(&LineString::new_from_coordinate_sequence(seqf(&va))),
            _ => { let mut o = OctagonalEnvelope::new_with_coordinate(&c(va[0].0, va[0].1)); for p in &va { o.expand_to_include_xy(p.0, p.1); } OctagonalEnvelope::new_with_octagonal_envelope(&o) } };
        let mut q = OctagonalEnvelope::default();
        for p in &vb { q.expand_to_include_coordinate(&c(p.0, p.1)); }
        ensure!(agrees(&o, &m, 0.0), "hull of {:?}: {:?} not {:?}", va, get(&o), m);
        ensure!(agrees(&q, &n, 0.0), "hull of {:?}: {:?} not {:?}", vb, get(&q), n);
        pair(&o, &q, x)?;
        pair(&q, &o, x)?;
        let g = m.unwrap();
        for px in -5..=5 { for py in -5..=5 {
            let (px, py) = (px as f64 * s + ox, py as f64 * s + oy);
            let p = pt(px, py);
            let w = (0..4).all(|k| p[k].0 >= g[k].0 && p[k].0 <= g[k].1);
            ensure!(o.intersects_coordinate(&c(px, py)) == w, "octagon {:?} and point ({:e},{:e}): {}", g, px, py, !w);
            x.t(1);
        } }
        let mut u = o;
        u.expand_to_include_octagonal_envelope(&q);
        ensure!(agrees(&u, &hull(&m, &n), 0.0), "{:?} expanded by {:?}: {:?}", m, n, get(&u));
        let mut u = q;
        u.expand_to_include_envelope(&Envelope::new_xy(va[0].0, vb[0].0, va[0].1, vb[0].1));
        let r = hull(&n, &rect(va[0].0.min(vb[0].0), va[0].0.max(vb[0].0), va[0].1.min(vb[0].1), va[0].1.max(vb[0].1)));
        ensure!(agrees(&u, &r, 0.0), "{:?} expanded by a box: {:?} not {:?}", n, get(&u), r);
        // grown and shrunk
        if s.abs() > 1e-290 && s.abs() < 1e290 { for dist in [s.abs(), -0.25 * s.abs(), -1.5 * s.abs(), -3.0 * s.abs()] {
            let mut u = o;
            u.expand_by_distance(dist);
            let Some(g) = m else { continue };
            let mut w = g; let mut null = false; let mut unsure = false;
            let size = g.iter().map(|p| p.0.abs().max(p.1.abs())).fold(0.0, f64::max);
            for k in 0..4 { let e = if k < 2 { dist } else { 2f64.sqrt() * dist }; w[k] = (g[k].0 - e, g[k].1 + e); let wd = w[k].1 - w[k].0; if k >= 2 && wd.abs() < size * 1e-12 { unsure = true; } if wd < 0.0 { null = true; } }
            if unsure { continue; }
            x.t(1);
            ensure!(agrees(&u, &if null { None } else { Some(w) }, size * 1e-14), "{:?} grown by {:e}: {:?} not {:?}", m, dist, get(&u), if null { None } else { Some(w) });
        } }
        Ok(())
    });
    // bounds that differ in the last bits only
    let bs: Vec<f64> = vec![1.0, -0.1, 1e15 + 0.375, 7e-9, -1e200 / 3.0, 16777217.0];
    let us: Vec<i64> = k.q(vec![-1, 0, 2, 300], vec![-2, -1, 0, 1, 3, 300]);
    let nu = us.len();
    k.family("octagons in the last bits", pow(bs.len(), 2) * pow(nu, 6), |i, x| {
        let mut d = Dec(i);
        let (bx, by) = (*d.of(&bs), *d.of(&bs));
        let mut v = || { let (a, b) = (*d.of(&us), *d.of(&us)); (geosmc::num::ulp(bx, a), geosmc::num::ulp(by, b)) };
        let (p, q, r) = (v(), v(), v());
        let h = |v: &[(f64, f64)]| v.iter().fold(None, |m, p| hull(&m, &Some(pt(p.0, p.1))));
        let (m, n) = (h(&[p, q]), h(&[r]));
        x.note(|| format!("{:?} {:?} {:?}", p, q, r));
        let o = match i % 3 { 0 => OctagonalEnvelope::new_with_coordinates(&c(p.0, p.1), &c(q.0, q.1)),
            1 => OctagonalEnvelope::new_with_line_string(&LineString::new_from_coordinate_sequence(CoordinateArraySequence::new_with_coordinates(&vec![c(p.0, p.1), c(q.0, q.1)]))),
            _ => { let mut o = OctagonalEnvelope::default(); o.expand_to_include_xy(p.0, p.1); o.expand_to_include_coordinate(&c(q.0, q.1)); o } };
        let s = OctagonalEnvelope::new_with_coordinate(&c(r.0, r.1));
        ensure!(agrees(&o, &m, 0.0) && agrees(&s, &n, 0.0), "hull of {:?} {:?}: {:?} not {:?}; of {:?}: {:?} not {:?}", p, q, get(&o), m, r, get(&s), n);
        pair(&o, &s, x)?;
        pair(&s, &o, x)?;
        let g = m.unwrap();
        for (a, b) in [r, (p.0, q.1), (p.0, r.1), (r.0, p.1), (q.0, r.1), p] {
            let t = pt(a, b);
            let w = (0..4).all(|k| t[k].0 >= g[k].0 && t[k].0 <= g[k].1);
            ensure!(o.intersects_coordinate(&c(a, b)) == w, "octagon {:?} and point ({:e},{:e}): {}", g, a, b, !w);
        }
        let mut u = o;
        u.expand_to_include_octagonal_envelope(&s);
        ensure!(agrees(&u, &h(&[p, q, r]), 0.0), "{:?} expanded by {:?}: {:?}", m, n, get(&u));
        let mut u = s;
        u.expand_to_include_envelope(&Envelope::new_xy(p.0, q.0, p.1, q.1));
        let w = hull(&n, &rect(p.0.min(q.0), p.0.max(q.0), p.1.min(q.1), p.1.max(q.1)));
        ensure!(agrees(&u, &w, 0.0), "{:?} expanded by the box of {:?} {:?}: {:?} not {:?}", n, p, q, get(&u), w);
        // shrunk to nothing or not quite, where a last bit of a plain bound decides
        for (w, k) in [(g[0].1 - g[0].0, 0), (g[1].1 - g[1].0, 1)] { for e in [w / 2.0, geosmc::num::ulp(w / 2.0, 2), w / 4.0, 0.0] {
            if w == 0.0 || (k == 0 && g[1].1 - g[1].0 != 0.0) && e > 0.0 { continue; }
            let mut u = o;
            u.expand_by_distance(e);
            let b = get(&u).ok_or("null after growing")?;
            ensure!((b[0].0, b[0].1, b[1].0, b[1].1) == (g[0].0 - e, g[0].1 + e, g[1].0 - e, g[1].1 + e), "{:?} grown by {:e}: {:?}", g, e, b);
            x.t(1);
        } }
        x.t(9);
        Ok(())
    });
    // shrunk by half an extent, or by a sliver more or less, where the plain bounds alone decide
    let slv: Vec<f64> = std::iter::once(0.0).chain((8..=k.q(45, 50)).flat_map(|e| [2f64.powi(-e), -2f64.powi(-e)])).collect();
    k.family("shrunk by a sliver more or less than half", slv.len() as u64 * 5 * 2 * 3 * 3 * 3, |i, x| {
        let mut d = Dec(i);
        let e = *d.of(&slv);
        let (w, l) = (*d.of(&[0.0, 1.0, 2.0, 5.0, 6.5]), 30.0);
        let (w, h) = if d.bit() { (w, l) } else { (l, w) };
        let (ox, oy) = *d.of(&[(0.0, 0.0), (-3.0, -1.0), (-1.0, 0.5)]);
        let s = *d.of(&[1.0, 2f64.powi(300), 2f64.powi(-70)]);
        let mut o = match d.take(3) {
            0 => OctagonalEnvelope::new_with_envelope(&Envelope::new_xy(ox * s, (ox + w) * s, oy * s, (oy + h) * s)),
            1 => { let mut o = OctagonalEnvelope::new_with_coordinates(&c(ox * s, oy * s), &c((ox + w) * s, (oy + h) * s)); o.expand_to_include_xy((ox + w) * s, oy * s); o.expand_to_include_xy(ox * s, (oy + h) * s); o }
            _ => { let mut o = OctagonalEnvelope::default(); for (p, q) in [(0.0, 0.0), (w, h), (w, 0.0), (0.0, h)] { o.expand_to_include_coordinate(&c((ox + p) * s, (oy + q) * s)); } o }
        };
        let b = get(&o).ok_or("null octagon")?;
        let dd = (w.min(h) / 2.0 + e) * s;
        x.note(|| format!("{:?} shrunk by {:e}", b, dd));
        o.expand_by_distance(-dd);
        x.t(1);
        x.out(if e > 0.0 { "vanished" } else { "still there" });
        ensure!(o.is_null() == (e > 0.0), "{:?} shrunk by {:e}: null is {}", b, dd, o.is_null());
        if let Some(g) = get(&o) { ensure!((0..2).all(|k| g[k] == (b[k].0 + dd, b[k].1 - dd)), "{:?} shrunk by {:e}: {:?}", b, dd, g); }
        Ok(())
    });
    // long lists: the extreme point of each of the eight directions anywhere in the list
    let n = k.q(48usize, 130);
    let ex = [(9.0, 0.0), (-9.0, 0.0), (0.0, 9.0), (0.0, -9.0), (6.0, 6.0), (-6.0, -6.0), (6.0, -6.0), (-6.0, 6.0)];
    k.family("long lists", (n * n) as u64 * 64, |i, x| {
        let mut d = Dec(i);
        let (a, b) = (d.take(n), d.take(n));
        let (u, v) = (*d.of(&ex), *d.of(&ex));
        let len = a.max(b) + 1 + (a + b) % 3;
        let mut p: Vec<(f64, f64)> = (0..len).map(|j| ((j % 7) as f64 * 0.25, (j % 5) as f64 * 0.25)).collect();
        p[a] = u; p[b] = v;
        let m: M = p.iter().fold(None, |m, p| hull(&m, &Some(pt(p.0, p.1))));
        let s = CoordinateArraySequence::new_with_coordinates(&p.iter().map(|p| c(p.0, p.1)).collect());
        let mut o = OctagonalEnvelope::default();
        match i % 3 { 0 => o.expand_to_include_coordinate_array_sequence(&s), 1 => o = OctagonalEnvelope::new_with_line_string(&LineString::new_from_coordinate_sequence(s)), _ => for q in &p { o.expand_to_include_coordinate(&c(q.0, q.1)); } }
        x.note(|| format!("{} points -> {:?}", len, m));
        x.out("hull");
        x.t(1);
        ensure!(agrees(&o, &m, 0.0), "hull of {} points (extremes at {} and {}): {:?} not {:?}", len, a, b, get(&o), m);
        Ok(())
    });
    let hg = huge(70001);
    k.family("huge lists", hg.len() as u64 * 64 * 2, |i, x| {
        let mut d = Dec(i);
        let (len, a) = *d.of(&hg);
        let (u, v) = (*d.of(&ex), *d.of(&ex));
        let b = if d.bit() { len - 1 - a } else { (a * 2 + 1) % len };
        if len > 5000 && (i % 8) != (a % 8) as u64 { return x.skip(); }
        let mut p: Vec<(f64, f64)> = (0..len).map(|j| ((j % 7) as f64 * 0.25, (j % 5) as f64 * 0.25)).collect();
        p[a] = u; p[b] = v;
        let m: M = p.iter().fold(None, |m, p| hull(&m, &Some(pt(p.0, p.1))));
        let s = CoordinateArraySequence::new_with_coordinates(&p.iter().map(|p| c(p.0, p.1)).collect());
        let mut o = OctagonalEnvelope::default();
        if i % 3 == 0 { o.expand_to_include_coordinate_array_sequence(&s) } else { o = OctagonalEnvelope::new_with_line_string(&LineString::new_from_coordinate_sequence(s)) }
        x.note(|| format!("{} points -> {:?}", len, m));
        x.out("hull");
        x.t(1);
        ensure!(agrees(&o, &m, 0.0), "hull of {} points (extremes at {} and {}): {:?} not {:?}", len, a, b, get(&o), m);
        Ok(())
    });
    k.finish()
}
