// P08 Centroid is the true centre of mass
use geos_rs::verif::*;
use geosmc::{ensure, exact::*, geo::*, mc::*};

#[derive(Clone, Copy, Debug)]
struct Map { ox: i64, oy: i64, s: f64 }
impl Map { fn c(&self, p: I) -> Coordinate { Coordinate::new_xyz((p.0 + self.ox) as f64 * self.s, (p.1 + self.oy) as f64 * self.s, 77.0) } }
const MAPS: [Map; 5] = [Map { ox: 0, oy: 0, s: 1.0 }, Map { ox: -100003, oy: 50009, s: 1.0 }, Map { ox: 1 << 24, oy: -(1 << 24), s: 0.5 },
    Map { ox: 0, oy: 0, s: 9.5367431640625e-7 }, Map { ox: 3, oy: -7, s: 1099511627776.0 }];

fn simple(r: &[I]) -> bool {
    let mut v = r.to_vec();
    v.dedup();
    if v.len() < 4 || v[0] != v[v.len() - 1] { return false; }
    let n = v.len() - 1;
    for i in 0..n { for j in i + 1..n {
        let (a, b, c, d) = (v[i], v[i + 1], v[j], v[j + 1]);
        if j == i + 1 { if on_seg(d, a, b) || on_seg(a, c, d) { return false; } }
        else if i == 0 && j == n - 1 { if on_seg(c, a, b) || on_seg(b, c, d) { return false; } }
        else if segs_meet(a, b, c, d) { return false; }
    } }
    true
}

/// the reference accumulator
#[derive(Clone, Default, Debug)]
struct Mass { a: i128, mx: i128, my: i128, len: f64, lx: f64, ly: f64, n: i64, px: i64, py: i64, ext: i64, parts: i64 }
impl Mass {
    /// polygon ring with weight +1 (shell), -1 (hole), each taken with its unsigned area
    fn ring(&mut self, r: &[I], w: i128) {
        let (mut a, mut x, mut y) = (0i128, 0i128, 0i128);
        for e in r.windows(2) { let c = cross(e[0], e[1]); a += c; x += (e[0].0 + e[1].0) as i128 * c; y += (e[0].1 + e[1].1) as i128 * c; }
        let w = if a < 0 { -w } else { w };
        self.a += w * a; self.mx += w * x; self.my += w * y;
        self.line(r);
    }
    fn line(&mut self, r: &[I]) {
        self.parts += r.len() as i64;
        let mut any = false;
        for e in r.windows(2) {
            let l = (sq(sub(e[0], e[1])) as f64).sqrt();
            if l > 0.0 { any = true; }
            self.len += l;
            self.lx += l * (e[0].0 + e[1].0) as f64 / 2.0;
            self.ly += l * (e[0].1 + e[1].1) as f64 / 2.0;
        }
        if !any && r.len() > 0 { self.point(r[0]); }
        for p in r { self.ext = self.ext.max(p.0.abs()).max(p.1.abs()); }
    }
    fn point(&mut self, p: I) { self.n += 1; self.parts += 1; self.px += p.0; self.py += p.1; self.ext = self.ext.max(p.0.abs()).max(p.1.abs()); }
    fn at(&self) -> Option<((f64, f64), &'static str)> {
        if self.a != 0 { Some(((q(self.mx, 3 * self.a), q(self.my, 3 * self.a)), "area weighted")) }
        else if self.len > 0.0 { Some(((self.lx / self.len, self.ly / self.len), "length weighted")) }
        else if self.n > 0 { Some(((q(self.px as i128, self.n as i128), q(self.py as i128, self.n as i128)), "point mean")) }
        else { None }
    }
    fn judge(&self, g: Option<Coordinate>, m: &Map, x: &mut Ctx, what: &dyn Fn() -> String) -> Res {
        x.t(1);
        match (self.at(), g) {
            (None, None) => { x.out("absent"); Ok(()) }
            (Some((w, kind)), Some(g)) => {
                x.out(kind);
                let (wx, wy) = ((w.0 + m.ox as f64) * m.s, (w.1 + m.oy as f64) * m.s);
                // error bound: coordinate magnitude times (extent squared over total area) for the area case
                let e = self.ext.max(1) as f64;
                let cond = if self.a != 0 { 1.0 + 64.0 * e * e / (self.a.abs() as f64) } else { 1.0 };
                let tol = 1e-14 * (1.0 + self.parts as f64 / 100.0) * cond * (e + m.ox.abs().max(m.oy.abs()) as f64) * m.s.abs();
                ensure!((g.x - wx).abs() <= tol && (g.y - wy).abs() <= tol, "centroid of {} under {:?} = ({:e},{:e}) not ({:e},{:e}), {}", what(), m, g.x, g.y, wx, wy, kind);
                Ok(())
            }
            (w, g) => Err(format!("centroid of {} under {:?} = {:?} but should be {:?}", what(), m, g.map(|c| (c.x, c.y)), w)),
        }
    }
}
fn vs(r: &[I], m: &Map) -> Vec<Coordinate> { r.iter().map(|p| m.c(*p)).collect() }
fn poly(rs: &[Vec<I>], m: &Map) -> Polygon {
    let shell = LinearRing::new_with_coordinates(&vs(&rs[0], m));
    let holes = rs[1..].iter().map(|h| LinearRing::new_with_coordinates(&vs(h, m))).collect();
    Polygon::new_with_linear_ring_vec(&shell, &holes)
}
fn pt(p: &Point) -> Option<Coordinate> { p.get_coordinate() }
fn reorder(r: &[I], start: usize, rev: bool) -> Vec<I> {
    if r.len() < 2 { return r.to_vec(); }
    let mut v = r[..r.len() - 1].to_vec();
    let s = start % v.len();
    v.rotate_left(s);
    v.push(v[0]);
    if rev { v.reverse(); }
    v
}

fn main() {
    let mut k = Check::new("P08");
    // every single ring
    for (n, m) in k.q(vec![(4usize, 5usize), (3, 6)], vec![(4, 6), (3, 7), (6, 4)]) {
        k.family(&format!("polygons without holes, {} points on {}x{}", m, n, n), seqs(n * n, 1, m), |i, x| {
            let mut d = Dec(i);
            let mut r: Vec<I> = seq(&mut d, n * n, 1, m).iter().map(|v| lat(*v, n, -1)).collect();
            r.push(r[0]);
            let mp = MAPS[(i % 5) as usize];
            let mut w = Mass::default();
            w.ring(&r, 1);
            x.note(|| format!("{:?} -> {:?}", r, w.at()));
            let p = poly(&[r.clone()], &mp);
            w.judge(pt(&p.get_centroid()), &mp, x, &|| format!("ring {:?}", r))?;
            w.judge(Centroid::get_centroid_from_polygon(&p), &mp, x, &|| format!("ring {:?}", r))
        });
    }
    // shells with two holes, in every start and direction, empty and shell-sized holes included
    let shells: Vec<Vec<I>> = vec![vec![(0, 0), (9, 0), (9, 9), (0, 9), (0, 0)], vec![(-1, -2), (12, 0), (10, 3), (10, 11), (2, 9), (-1, -2)]];
    let holes: Vec<Vec<I>> = vec![vec![], vec![(1, 1), (4, 1), (4, 4), (1, 1)], vec![(5, 5), (8, 5), (8, 6), (6, 6), (6, 8), (5, 8), (5, 5)],
        vec![(0, 0), (9, 0), (9, 9), (0, 9), (0, 0)], vec![(1, 5), (2, 8), (4, 7), (4, 7), (1, 5)], vec![(6, 2), (8, 2), (6, 2)], vec![(5, 3), (5, 3), (5, 3)]];
    let ns = 5u64;
    let nh = holes.len() as u64;
    k.family("polygons with up to two holes", 2 * ns * 2 * (nh * nh) * 9 * 4 * 5, |i, x| {
        let mut d = Dec(i);
        let sh = d.of(&shells).clone();
        let shell = reorder(&sh, d.take(5), d.bit());
        let (h1, h2) = (d.of(&holes).clone(), d.of(&holes).clone());
        let (a, b) = (d.take(3) * 2, d.take(3) * 2);
        let h1 = reorder(&h1, a, d.bit());
        let h2 = reorder(&h2, b, d.bit());
        let mp = *d.of(&MAPS);
        let rs = vec![shell, h1, h2];
        let mut w = Mass::default();
        w.ring(&rs[0], 1);
        for h in &rs[1..] { w.ring(h, -1); }
        x.note(|| format!("{:?} -> {:?}", rs, w.at()));
        let p = poly(&rs, &mp);
        w.judge(pt(&p.get_centroid()), &mp, x, &|| format!("{:?}", rs))?;
        // the same with a precision model is that point, made precise
        let mut pm = PrecisionModel::new_with_scale(4.0);
        let hs = rs[1..].iter().map(|h| LinearRing::new_with_coordinates(&vs(h, &mp))).collect();
        let g = pt(&Polygon::new_with_linear_ring_vec_precision_model(&LinearRing::new_with_coordinates(&vs(&rs[0], &mp)), &hs, pm).get_centroid());
        let u = pt(&p.get_centroid());
        match (g, u) {
            (Some(g), Some(mut u)) => { pm.make_precise_coordinate(&mut u); ensure!(g.x == u.x && g.y == u.y, "{:?}: precise centroid ({},{}) not ({},{})", rs, g.x, g.y, u.x, u.y); }
            (None, None) => {}
            _ => return Err(format!("{:?}: precision model changes presence of the centroid", rs)),
        }
        x.t(1);
        Ok(())
    });
    // every power-of-two scale and offset: tiny areas and lengths count as much as large ones
    let mut every: Vec<Map> = (-90..=90).step_by(k.q(6, 1)).map(|e| Map { ox: 0, oy: 0, s: 2f64.powi(e) }).collect();
    for e in (0..=28).step_by(k.q(4, 1)) { let o = 1i64 << e; every.extend([Map { ox: o, oy: 0, s: 1.0 }, Map { ox: 3, oy: -o - 1, s: 2f64.powi(30) }, Map { ox: -o + 1, oy: o, s: 2f64.powi(-20) }]); }
    for e in (-480..=480).step_by(k.q(48, 6)).filter(|e: &i32| e.abs() > 90) { every.push(Map { ox: (e as i64) % 7, oy: 0, s: 2f64.powi(e) }); }
    let m = k.q(4usize, 5);
    k.family("rings and lines at every scale and offset", seqs(9, 1, m) * every.len() as u64, |i, x| {
        let mut d = Dec(i);
        let mut r: Vec<I> = seq(&mut d, 9, 1, m).iter().map(|v| lat(*v, 3, -1)).collect();
        let mp = *d.of(&every);
        let mut w = Mass::default();
        w.line(&r);
        x.note(|| format!("{:?} {:?}", r, mp));
        w.judge(Centroid::new_from_line_string(&GeometryFactory::create_line_string_coordinates(&vs(&r, &mp))).get_centroid(), &mp, x, &|| format!("line {:?}", r))?;
        // third powers of the coordinates have to stay within range
        if mp.s.log2().abs() > 310.0 { return Ok(()); }
        r.push(r[0]);
        let mut w = Mass::default();
        w.ring(&r, 1);
        w.judge(pt(&poly(&[r.clone()], &mp).get_centroid()), &mp, x, &|| format!("ring {:?}", r))
    });
    // decimal polygons and lines, whose differences and products are rounded
    let (nd, m) = k.q((11usize, 4usize), (12, 5));
    k.family("decimal polygons, lines and points", seqs(nd, 1, m) * 4, |i, x| {
        let mut d = Dec(i);
        let kind = d.take(4);
        let mut r: Vec<P> = seq(&mut d, nd, 1, m).iter().map(|k| DEC[*k]).collect();
        let c = |p: &P| Coordinate::new_xy(p.0, p.1);
        let n = r.len();
        let big = r.iter().fold(0.0f64, |m, p| m.max(p.0.abs()).max(p.1.abs()));
        let span = |f: fn(&P) -> f64| { let (a, b) = r.iter().map(f).fold((f64::MAX, f64::MIN), |m, v| (m.0.min(v), m.1.max(v))); b - a };
        let box_ = span(|p| p.0) * span(|p| p.1);
        let sum = |f: fn(&P) -> f64| r.iter().fold(Dy::int(0), |a, p| a.add(&Dy::new(f(p)))).f64() / n as f64;
        let mean = (sum(|p| p.0), sum(|p| p.1));
        let (g, w, tol) = if kind == 0 {
            let mut g = Centroid::default();
            for p in &r { g.add_point(&c(p)); }
            (g.get_centroid(), mean, 4.0 * f64::EPSILON * big * n as f64)
        } else if kind == 1 {
            if n < 2 { return x.skip(); }
            let (mut l, mut lx, mut ly) = (0.0, 0.0, 0.0);
            for e in r.windows(2) { let s = (e[0].0 - e[1].0).hypot(e[0].1 - e[1].1); l += s; lx += s * (e[0].0 + e[1].0) / 2.0; ly += s * (e[0].1 + e[1].1) / 2.0; }
            let w = if l > 0.0 { (lx / l, ly / l) } else { r[0] };
            (Centroid::new_from_line_string(&GeometryFactory::create_line_string_coordinates(&r.iter().map(c).collect())).get_centroid(), w, 16.0 * f64::EPSILON * big)
        } else {
            r.push(r[0]);
            let df = |a: f64, b: f64| Dy::new(a).sub(&Dy::new(b));
            let (o, mut a, mut mx, mut my) = (r[0], Dy::int(0), Dy::int(0), Dy::int(0));
            for e in r.windows(2) {
                let (ux, uy, vx, vy) = (df(e[0].0, o.0), df(e[0].1, o.1), df(e[1].0, o.0), df(e[1].1, o.1));
                let k = ux.mul(&vy).sub(&uy.mul(&vx));
                mx = mx.add(&ux.add(&vx).mul(&k));
                my = my.add(&uy.add(&vy).mul(&k));
                a = a.add(&k);
            }
            let ar = a.abs().f64();
            // rings whose area may be lost in rounding
            if ar <= 1e-12 * box_ { return x.skip(); }
            let at = |o: f64, m: Dy| Rat::new(m.add(&Dy::new(o).mul(&a).mul(&Dy::int(3))), a.mul(&Dy::int(3))).f64();
            let w = (at(o.0, mx), at(o.1, my));
            let v: Vec<Coordinate> = r.iter().map(c).collect();
            let ring = LinearRing::new_with_coordinates(&v);
            let p = Polygon::new_with_linear_ring_vec(&ring, &vec![]);
            let g = if kind == 2 { p.get_centroid() } else { MultiPolygon::new_with_polygons(&vec![p]).get_centroid() };
            (pt(&g), w, 32.0 * f64::EPSILON * big.max(w.0.abs()).max(w.1.abs()) * (1.0 + 4.0 * box_ / ar))
        };
        x.note(|| format!("{:?} kind {} -> {:?}", r, kind, w));
        let g = g.ok_or_else(|| format!("no centroid of {:?} (kind {})", r, kind))?;
        x.t(1);
        x.out(["decimal point mean", "decimal line", "decimal polygon", "decimal multi polygon"][kind]);
        ensure!((g.x - w.0).abs() <= tol && (g.y - w.1).abs() <= tol, "centroid of {:?} (kind {}) = ({:e},{:e}) not ({:e},{:e})", r, kind, g.x, g.y, w.0, w.1);
        Ok(())
    });
    // slivers: a ring stretched along one axis by any power of two. Every product of the small numbers involved is exact,
    // so that the area counts however small it is beside the length
    let (m, st) = (k.q(4usize, 5), k.q(5usize, 1));
    let ks: Vec<u32> = (0..=50).step_by(st).collect();
    k.family("slivers", seqs(9, 1, m) * ks.len() as u64 * 4, |i, x| {
        let mut d = Dec(i);
        let mut r: Vec<I> = seq(&mut d, 9, 1, m).iter().map(|v| lat(*v, 3, -1)).collect();
        let (k, tall, two) = (*d.of(&ks), d.bit(), d.bit());
        r.push(r[0]);
        let st = |p: &I| -> I { if tall { (p.0, p.1 << k) } else { (p.0 << k, p.1) } };
        let r: Vec<I> = r.iter().map(st).collect();
        // the sense of a hole that crosses itself is no one's
        if two && !simple(&r) { return x.skip(); }
        let mut w = Mass::default();
        w.ring(&r, 1);
        let rs = if two { let s: Vec<I> = [(-8, -8), (8, -8), (8, 8), (-8, 8), (-8, -8)].iter().map(st).collect(); w = Mass::default(); w.ring(&s, 1); w.ring(&r, -1); vec![s, r] } else { vec![r] };
        if w.a == 0 { return x.skip(); }
        x.note(|| format!("{:?} -> {:?}", rs, w.at()));
        let ((wx, wy), kind) = w.at().unwrap();
        x.out(kind);
        let g = pt(&poly(&rs, &MAPS[0]).get_centroid()).ok_or_else(|| format!("no centroid of {:?}", rs))?;
        let (ex, ey) = (st(&(8, 8)).0 as f64, st(&(8, 8)).1 as f64);
        x.t(1);
        ensure!((g.x - wx).abs() <= 1e-12 * ex && (g.y - wy).abs() <= 1e-12 * ey, "centroid of {:?} = ({:e},{:e}) not ({:e},{:e})", rs, g.x, g.y, wx, wy);
        Ok(())
    });
    // shells, lines, hole counts and element counts of every size
    let top = k.q(300u64, 1200);
    let far = [4095i64, 4096, 4097, 65535, 65536, 65537, 70000];
    k.family("shells and lines of every size", (top + far.len() as u64) * 4 * 2, |i, x| {
        let mut d = Dec(i);
        let (shape, rev) = (d.take(4), d.bit());
        let n = if d.0 < top { d.0 as i64 + 1 } else { far[(d.0 - top) as usize] };
        let mut r: Vec<I> = match shape {
            0 => (0..n).map(|k| (k, k * k)).collect(),
            1 => { let h = (n + 1) / 2; (0..n).map(|k| if k < h { (2 * k, 0) } else { (2 * (n - 1 - k) + 1, 5 + (k % 3)) }).collect() }
            2 => (0..n).map(|k| if k == 0 { (2 * n, -1) } else if k == n - 1 { (0, -1) } else { (2 * (n - k), if k % 2 == 0 { 0 } else { 9 }) }).collect(),
            _ => (0..n).map(|k| (3 * k, -k)).collect(), // collinear: no area however long
        };
        if rev { r.reverse(); }
        let mp = [MAPS[0], MAPS[3], Map { ox: 100, oy: -55, s: 0.5 }][(n % 3) as usize];
        x.note(|| format!("shape {} of {} points", shape, n));
        let mut w = Mass::default();
        w.line(&r);
        w.judge(Centroid::new_from_line_string(&GeometryFactory::create_line_string_coordinates(&vs(&r, &mp))).get_centroid(), &mp, x, &|| format!("line of shape {} with {} points", shape, n))?;
        r.push(r[0]);
        let mut w = Mass::default();
        w.ring(&r, 1);
        w.judge(pt(&poly(&[r.clone()], &mp).get_centroid()), &mp, x, &|| format!("shell of shape {} with {} points", shape, n))
    });
    let top = k.q(64u64, 300);
    // every small number of parts and some around the powers of two; every number of points
    let mut cases: Vec<(usize, i64)> = (0..4).flat_map(|w| (0..top as i64).chain([100, 127, 128, 129, 255, 256, 257, 300]).map(move |n| (w, n))).collect();
    cases.extend((0..top as i64 + 400).chain(far).map(|n| (4, n)));
    k.family("holes, elements and points in every number", cases.len() as u64, |i, x| {
        let (what, n) = cases[i as usize];
        let side = 6 * (n + 1);
        let hole = |k: i64| -> Vec<I> { let (a, b) = (6 * k + 1, 6 * ((k * 7) % (n + 1)) + 1); let mut h = vec![(a, b), (a + 4, b), (a + 3, b + 3 + k % 2), (a, b)]; if k % 3 == 1 { h.reverse(); } if k % 5 == 4 { h.clear(); } h };
        let mp = [MAPS[0], MAPS[4]][(n % 2) as usize];
        let mut w = Mass::default();
        x.note(|| format!("kind {} number {}", what, n));
        let g = match what {
            0 => { // one shell, n holes
                let mut rs = vec![vec![(0, 0), (side, 0), (side, side), (0, side), (0, 0)]];
                rs.extend((0..n).map(hole));
                w.ring(&rs[0], 1);
                for h in &rs[1..] { w.ring(h, -1); }
                pt(&poly(&rs, &mp).get_centroid())
            }
            1 => { // n polygons
                let ps: Vec<Polygon> = (0..n).map(|k| { let r = hole(k); w.ring(&r, 1); poly(&[r], &mp) }).collect();
                pt(&MultiPolygon::new_with_polygons(&ps).get_centroid())
            }
            2 => { // n polygons with a hole each
                let ps: Vec<Polygon> = (0..n).map(|k| { let o = 20 * k; let r = vec![(o, 0), (o + 15, 1), (o + 14, 12 + k % 4), (o, 0)]; let h = vec![(o + 9, 2), (o + 11, 2), (o + 11, 5), (o + 9, 2)]; w.ring(&r, 1); w.ring(&h, -1); poly(&[r, h], &mp) }).collect();
                pt(&GeometryFactory::create_multi_polygon(&ps).get_centroid())
            }
            3 => { // n flat polygons
                let ps: Vec<Polygon> = (0..n).map(|k| { let r = vec![(k, 3 * k), (2 * k + 1, k), (k, 3 * k)]; w.ring(&r, 1); poly(&[r], &mp) }).collect();
                pt(&MultiPolygon::new_with_polygons(&ps).get_centroid())
            }
            _ => { // n points
                let mut c = Centroid::default();
                for k in 0..n { let p = (k * k, 5 - 3 * k); w.point(p); c.add_point(&mp.c(p)); }
                c.get_centroid()
            }
        };
        w.judge(g, &mp, x, &|| format!("kind {} number {}", what, n))
    });
    // polygons scaled so that the centroid falls between grid points
    k.family("centroids made precise", 4 * 6 * 4096, |i, x| {
        let mut d = Dec(i);
        let sc = *d.of(&[1.0, 10.0, -2.0, 0.25]);
        let v = d.take(6);
        let r: Vec<I> = vec![lat(d.take(64), 8, -4), lat(d.take(64), 8, -2), (11 + v as i64, -3)];
        let mut r = r;
        r.push(r[0]);
        let mut pm = if sc < 0.0 { PrecisionModel::new_with_scale(-sc) } else { PrecisionModel::new_with_scale(sc) };
        let shell = LinearRing::new_with_coordinates(&vs(&r, &MAPS[0]));
        let plain = Polygon::new_with_linear_ring(&shell);
        let p = match v % 2 { 0 => Polygon::new_with_linear_ring_precision_model(&shell, pm), _ => Polygon::new_with_linear_ring_vec_precision_model(&shell, &vec![], pm) };
        let mut u = plain.get_centroid().get_coordinate().ok_or("absent")?;
        pm.make_precise_coordinate(&mut u);
        let ok = |g: Option<Coordinate>| g.map(|g| g.x == u.x && g.y == u.y).unwrap_or(false);
        x.note(|| format!("{:?} -> ({},{})", r, u.x, u.y));
        x.out("made precise");
        for (nm, g) in [("polygon", p.get_centroid()), ("copy", p.copy().get_centroid()), ("reverse", p.reverse().get_centroid()),
            ("multi", MultiPolygon::new_with_polygons_precision_model(&vec![plain.copy()], pm).get_centroid()),
            ("copied multi", MultiPolygon::new_with_polygons_precision_model(&vec![plain.copy()], pm).copy().get_centroid()),
            ("reversed multi", MultiPolygon::new_with_polygons_precision_model(&vec![plain.copy()], pm).reverse().reverse().get_centroid())] {
            x.t(1);
            let g = g.get_coordinate();
            // reversing may move the centroid by an ulp before it is made precise
            let near = g.map(|g| { let t = 1e-9; (g.x - u.x).abs() < t && (g.y - u.y).abs() < t }).unwrap_or(false);
            let knife = { let c = plain.get_centroid().get_coordinate().unwrap(); let f = |v: f64| ((v * sc.abs() - 0.5) - (v * sc.abs() - 0.5).round()).abs() < 1e-9; f(c.x) || f(c.y) };
            if knife { continue; }
            ensure!(ok(g) || (nm.starts_with("rev") && near), "{} of {:?} scale {}: precise centroid {:?} not ({},{})", nm, r, sc, g.map(|g| (g.x, g.y)), u.x, u.y);
        }
        Ok(())
    });
    // multi polygons from a palette
    let pal: Vec<Vec<Vec<I>>> = vec![
        vec![vec![]],
        vec![vec![(0, 0), (4, 0), (0, 3), (0, 0)]],
        vec![vec![(0, 0), (0, 3), (4, 0), (0, 0)]],
        vec![vec![(10, 10), (10, 16), (16, 16), (16, 10), (10, 10)], vec![(11, 11), (13, 11), (13, 14), (11, 11)]],
        vec![vec![(10, 10), (16, 10), (16, 16), (10, 16), (10, 10)], vec![(11, 11), (13, 14), (13, 11), (11, 11)], vec![]],
        vec![vec![(-5, -5), (5, 5), (-5, -5)]],
        vec![vec![(-3, 8), (-3, 8), (-3, 8), (-3, 8)]],
        vec![vec![(20, 0), (22, 0), (22, 2), (20, 2), (20, 0)], vec![(20, 0), (22, 0), (22, 2), (20, 2), (20, 0)]],
        vec![vec![(7, -7)]],
    ];
    let l = k.q(5usize, 6);
    k.family("multi polygons", seqs(pal.len(), 0, l), |i, x| {
        let mut d = Dec(i);
        let s = seq(&mut d, pal.len(), 0, l);
        let mut w = Mass::default();
        let mut ps = vec![];
        let mp = MAPS[(i % 4) as usize];
        for e in &s {
            w.ring(&pal[*e][0], 1);
            for h in &pal[*e][1..] { w.ring(h, -1); }
            ps.push(poly(&pal[*e], &mp));
        }
        x.note(|| format!("{:?} -> {:?}", s, w.at()));
        let m = if i % 2 == 0 { MultiPolygon::new_with_polygons(&ps) } else { GeometryFactory::create_multi_polygon(&ps) };
        w.judge(pt(&m.get_centroid()), &mp, x, &|| format!("{:?}", s))?;
        w.judge(Centroid::new_from_multi_polygon(&m).get_centroid(), &mp, x, &|| format!("{:?}", s))?;
        if s.len() == 1 { w.judge(Centroid::new_from_polygon(&m.get_polygon_at_index(0)).get_centroid(), &mp, x, &|| format!("{:?}", s))?; }
        w.judge(Centroid::get_centroid_from_multi_polygon(&m), &mp, x, &|| format!("{:?}", s))
    });
    // any history of additions of parts of any dimension
    enum Op { Poly(Vec<Vec<I>>), Shell(Vec<I>), Line(Vec<I>), Pt(I) }
    let ops = [Op::Pt((3, 4)), Op::Pt((-6, 1)), Op::Line(vec![]), Op::Line(vec![(5, 5)]), Op::Line(vec![(1, 1), (1, 1), (5, 4), (5, 5)]), Op::Line(vec![(0, 9), (0, 9)]),
        Op::Line(vec![(-2, 0), (0, 0)]), Op::Poly(pal[3].clone()), Op::Poly(pal[4].clone()), Op::Poly(vec![vec![]]), Op::Shell(pal[2][0].clone()), Op::Shell(pal[1][0].clone()), Op::Shell(pal[5][0].clone())];
    let l = k.q(5usize, 6);
    k.family("histories of additions", seqs(ops.len(), 0, l), |i, x| {
        let mut d = Dec(i);
        let s = seq(&mut d, ops.len(), 0, l);
        let mut w = Mass::default();
        let mut c = Centroid::default();
        let mp = MAPS[(i % 4) as usize];
        for e in &s {
            match &ops[*e] {
                Op::Poly(p) => { for (j, r) in p.iter().enumerate() { w.ring(r, if j == 0 { 1 } else { -1 }); } c.add_polygon(&poly(p, &mp)); }
                Op::Shell(r) => { w.ring(r, 1); c.add_shell(&vs(r, &mp)); }
                Op::Line(r) => { w.line(r); c.add_line_segments(&vs(r, &mp)); }
                Op::Pt(p) => { w.point(*p); c.add_point(&mp.c(*p)); }
            }
            x.t(1);
        }
        x.note(|| format!("{:?} -> {:?}", s, w.at()));
        w.judge(c.get_centroid(), &mp, x, &|| format!("history {:?}", s))?;
        w.judge(c.get_centroid(), &mp, x, &|| format!("history {:?} asked again", s))
    });
    // lines and points
    let m = k.q(5usize, 6);
    k.family("line strings", seqs(16, 0, m), |i, x| {
        let mut d = Dec(i);
        let l: Vec<I> = seq(&mut d, 16, 0, m).iter().map(|v| lat(*v, 4, -1)).collect();
        let mp = MAPS[(i % 5) as usize];
        let mut w = Mass::default();
        w.line(&l);
        x.note(|| format!("{:?} -> {:?}", l, w.at()));
        let ls = GeometryFactory::create_line_string_coordinates(&vs(&l, &mp));
        w.judge(Centroid::new_from_line_string(&ls).get_centroid(), &mp, x, &|| format!("line {:?}", l))
    });
    let al = [0.0, -0.0, 0.1, 1e300, -1e-300, 123456789.123, f64::MAX];
    k.family("points", 1 + pow(al.len(), 2), |i, x| {
        if i == 0 { x.t(2); x.out("absent"); ensure!(Centroid::get_centroid_from_point(&Point::default()).is_none(), "centroid of an empty point"); ensure!(Centroid::default().get_centroid().is_none(), "centroid of nothing"); return Ok(()); }
        let mut d = Dec(i - 1);
        let c = Coordinate::new_xy(*d.of(&al), *d.of(&al));
        x.t(1);
        x.out("point mean");
        x.note(|| format!("({}, {})", c.x, c.y));
        let g = Centroid::get_centroid_from_point(&GeometryFactory::create_point_from_coordinate(&c)).ok_or("absent")?;
        let h = Centroid::new_from_point(&GeometryFactory::create_point_from_coordinate(&c)).get_centroid().ok_or("absent")?;
        ensure!(g.x == c.x && g.y == c.y && h.x == c.x && h.y == c.y, "centroid of ({},{}) = ({},{})", c.x, c.y, g.x, g.y);
        Ok(())
    });
    let _ = orient_i;
    k.finish()
}
