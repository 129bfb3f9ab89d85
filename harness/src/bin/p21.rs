// P21 Triangle measures and centres
use geos_rs::verif::*;
use geosmc::{ensure, exact::*, geo::*, mc::*, num::*};

#[derive(Clone, Copy, Debug)]
struct Map { ox: i64, oy: i64, s: f64 }
const MAPS: [Map; 7] = [Map { ox: 0, oy: 0, s: 1.0 }, Map { ox: -1000003, oy: 500009, s: 1.0 }, Map { ox: 1 << 30, oy: -(1 << 31), s: 1.0 },
    Map { ox: 3, oy: -5, s: 9.5367431640625e-7 }, Map { ox: 1, oy: 2, s: 1.2676506002282294e30 }, Map { ox: -7, oy: 11, s: 0.125 }, Map { ox: 0, oy: 1 << 40, s: 0.5 }];
impl Map {
    fn c(&self, p: I) -> Coordinate { Coordinate::new_xy((p.0 + self.ox) as f64 * self.s, (p.1 + self.oy) as f64 * self.s) }
    fn z(&self, p: I, z: f64) -> Coordinate { Coordinate::new_xyz((p.0 + self.ox) as f64 * self.s, (p.1 + self.oy) as f64 * self.s, z) }
    /// size of the absolute coordinates
    fn mag(&self, e: f64) -> f64 { (self.ox.abs().max(self.oy.abs()) as f64 + e) * self.s }
}
fn d(a: I, b: I) -> f64 { (sq(sub(a, b)) as f64).sqrt() }

/// circumcentre relative to c as numerators over a common denominator
fn ccentre(a: I, b: I, c: I) -> (i128, i128, i128) {
    let (u, v) = (sub(a, c), sub(b, c));
    let den = 2 * cross(u, v);
    (v.1 as i128 * sq(u) - u.1 as i128 * sq(v), u.0 as i128 * sq(v) - v.0 as i128 * sq(u), den)
}
fn near(g: &Coordinate, w: (f64, f64), tol: f64) -> bool { (g.x - w.0).abs() <= tol && (g.y - w.1).abs() <= tol }

/// p,q,r lattice triangle (any, also degenerate); e bounds the coordinate size
fn judge(p: I, q: I, r: I, m: &Map, x: &mut Ctx) -> Res {
    let (a, b, c) = (m.c(p), m.c(q), m.c(r));
    let t = Triangle::new(&a, &b, &c);
    let cr = cross(sub(q, p), sub(r, p)); // doubled area, ccw positive
    let e = [p, q, r].iter().map(|v| v.0.abs().max(v.1.abs())).max().unwrap() as f64;
    let ext = (d(p, q).max(d(q, r)).max(d(r, p))) * m.s;
    let mg = m.mag(e);
    let u = mg * 1e-15; // rounding of absolute coordinates
    macro_rules! both { ($n:expr, $s:expr, $i:expr, $ok:expr, $w:expr) => { {
        for (f, g) in [("static", $s), ("method", $i)] { x.t(1); ensure!($ok(&g), "{} ({}) of {:?} {:?} {:?} {:?} = {:?} not {:?}", $n, f, p, q, r, m, g, $w); }
    } } }
    let w = -(cr as f64) / 2.0 * m.s * m.s;
    both!("signed area", Triangle::signed_area_coordinates(&a, &b, &c), t.signed_area(), |g: &f64| close(*g, w, 1e-14, 0.0), w);
    both!("area", Triangle::area_coordinates(&a, &b, &c), t.area(), |g: &f64| *g >= 0.0 && close(*g, w.abs(), 1e-14, 0.0), w.abs());
    let l = (d(p, q) + d(q, r) + d(r, p)) * m.s;
    both!("perimeter", Triangle::length_coordinates(&a, &b, &c), t.length(), |g: &f64| close(*g, l, 2e-15, 0.0), l);
    both!("longest side", Triangle::longest_side_length_coordinates(&a, &b, &c), t.longest_side_length(), |g: &f64| close(*g, ext, 2e-15, 0.0), ext);
    let acute = dot(sub(p, q), sub(r, q)) > 0 && dot(sub(q, r), sub(p, r)) > 0 && dot(sub(r, p), sub(q, p)) > 0;
    both!("is_acute", Triangle::is_acute_coordinates(&a, &b, &c), t.is_acute(), |g: &bool| *g == acute, acute);
    both!("is_ccw", Triangle::is_ccw_coordinates(&a, &b, &c), t.is_ccw(), |g: &bool| *g == (cr > 0), cr > 0);
    let w = (((p.0 + q.0 + r.0) as f64 / 3.0 + m.ox as f64) * m.s, ((p.1 + q.1 + r.1) as f64 / 3.0 + m.oy as f64) * m.s);
    let both_pt = |n: &str, s: Coordinate, i: Coordinate, w: (f64, f64), tol: f64, x: &mut Ctx| -> Res {
        for (f, g) in [("static", s), ("method", i)] { x.t(1); ensure!(near(&g, w, tol), "{} ({}) of {:?} {:?} {:?} {:?} = ({:e},{:e}) not {:?}", n, f, p, q, r, m, g.x, g.y, w); }
        Ok(())
    };
    both_pt("centroid", Triangle::centroid_coordinates(&a, &b, &c), t.centroid(), w, u, x)?;
    // the bisector of the angle at q meets pr in the ratio of the sides
    if d(p, q) + d(q, r) > 0.0 {
        let f = d(p, q) / (d(p, q) + d(q, r));
        let w = ((p.0 as f64 + f * (r.0 - p.0) as f64 + m.ox as f64) * m.s, (p.1 as f64 + f * (r.1 - p.1) as f64 + m.oy as f64) * m.s);
        let g = Triangle::angle_bisector_coordinates(&a, &b, &c);
        x.t(1);
        ensure!(near(&g, w, u), "angle bisector at {:?} of {:?} {:?} {:?} = ({:e},{:e}) not {:?}", q, p, r, m, g.x, g.y, w);
    }
    if l > 0.0 {
        let (la, lb, lc) = (d(q, r), d(r, p), d(p, q));
        let s = la + lb + lc;
        let i = |k: fn(I) -> i64| (la * k(p) as f64 + lb * k(q) as f64 + lc * k(r) as f64) / s;
        let w = ((i(|v| v.0) + m.ox as f64) * m.s, (i(|v| v.1) + m.oy as f64) * m.s);
        both_pt("in-centre", Triangle::in_centre_coordinates(&a, &b, &c), t.in_centre(), w, 3.0 * u, x)?;
    }
    if cr == 0 {
        x.out("flat");
        both!("circumradius", Triangle::circumradius_coordinates(&a, &b, &c), t.circumradius(), |g: &f64| *g == f64::INFINITY, f64::INFINITY);
        return Ok(());
    }
    x.out(if acute { "acute" } else { "not acute" });
    let rr = d(p, q) * d(q, r) * d(r, p) / (2.0 * cr.unsigned_abs() as f64) * m.s;
    both!("circumradius", Triangle::circumradius_coordinates(&a, &b, &c), t.circumradius(), |g: &f64| close(*g, rr, 1e-13, 0.0), rr);
    let (nx, ny, den) = ccentre(p, q, r);
    let w = ((nx as f64 / den as f64 + (r.0 + m.ox) as f64) * m.s, (ny as f64 / den as f64 + (r.1 + m.oy) as f64) * m.s);
    // exact: same distance from the three corners
    let ctol = u + rr * 1e-14;
    both_pt("circumcentre", Triangle::circumcentre_coordinates(&a, &b, &c), t.circumcentre(), w, ctol, x)?;
    let g = Triangle::circumcentre_dd_coordinates(&a, &b, &c);
    x.t(1);
    ensure!(near(&g, w, u + rr * 3e-16), "DD circumcentre of {:?} {:?} {:?} {:?} = ({:e},{:e}) not {:?}", p, q, r, m, g.x, g.y, w);
    // perpendicular bisectors: any two meet in the circumcentre, each meets its side in the middle
    if mg <= 1e3 * ext.max(m.s) {
        let h = [Triangle::perpendicular_bisector_coordinates(&a, &b), Triangle::perpendicular_bisector_coordinates(&b, &c), Triangle::perpendicular_bisector_coordinates(&c, &a)];
        let s = [(p, q), (q, r), (r, p)];
        let amp = (mg / ext).max(1.0);
        let tol = (mg + rr * rr / ext * 4.0) * amp * 1e-13;
        for i in 0..3 {
            let g = HCoordinate::new_with_hcoordinates(&h[i], &h[(i + 1) % 3]);
            x.t(2);
            ensure!((g.get_x() - w.0).abs() <= tol && (g.get_y() - w.1).abs() <= tol, "perpendicular bisectors {} of {:?} {:?} {:?} {:?} meet at ({:e},{:e}) not {:?}", i, p, q, r, m, g.get_x(), g.get_y(), w);
            let (e, f) = s[i];
            let side = HCoordinate::new_with_coordinates(&m.c(e), &m.c(f));
            let g = HCoordinate::new_with_hcoordinates(&h[i], &side);
            let mid = (((e.0 + f.0) as f64 / 2.0 + m.ox as f64) * m.s, ((e.1 + f.1) as f64 / 2.0 + m.oy as f64) * m.s);
            ensure!((g.get_x() - mid.0).abs() <= mg * amp * 1e-12 && (g.get_y() - mid.1).abs() <= mg * amp * 1e-12, "perpendicular bisector of {:?} {:?} {:?} meets it at ({:e},{:e}) not {:?}", e, f, m, g.get_x(), g.get_y(), mid);
        }
    }
    Ok(())
}

/// Z of the plane through three lattice corners that are not in line
fn plane(p: I, q: I, r: I, s: I, z: (i64, i64, i64), zf: f64, m: &Map, x: &mut Ctx) -> Res {
    let (a, b, c) = (m.z(p, z.0 as f64 * zf), m.z(q, z.1 as f64 * zf), m.z(r, z.2 as f64 * zf));
    let pt = m.c(s);
    let den = cross(sub(q, p), sub(r, p));
    let (t, u) = (cross(sub(s, p), sub(r, p)), cross(sub(q, p), sub(s, p)));
    let num = z.0 as i128 * den + t * (z.1 - z.0) as i128 + u * (z.2 - z.0) as i128;
    let w = num as f64 / den as f64 * zf;
    let tol = 1e-14 * (1.0 + (t.abs() + u.abs()) as f64 / den.abs() as f64) * (z.0.abs() + z.1.abs() + z.2.abs()) as f64 * zf;
    for (f, g) in [("static", Triangle::interpolate_z_coordinates(&pt, &a, &b, &c)), ("method", Triangle::new(&a, &b, &c).interpolate_z(&pt))] {
        x.t(1);
        ensure!((g - w).abs() <= tol, "Z of the plane {:?}{} {:?}{} {:?}{} times {:e} {:?} at {:?} ({}) = {} not {}", p, z.0, q, z.1, r, z.2, zf, m, s, f, g, w);
    }
    Ok(())
}

fn main() {
    let mut k = Check::new("P21");
    let n = k.q(8usize, 15);
    k.family(&format!("all triangles on {}x{}", n, n), pow(n * n, 3), |i, x| {
        let mut e = Dec(i);
        let (p, q, r) = (lat(e.take(n * n), n, -2), lat(e.take(n * n), n, -2), lat(e.take(n * n), n, -2));
        x.note(|| format!("{:?} {:?} {:?}", p, q, r));
        judge(p, q, r, &MAPS[0], x)
    });
    let n = k.q(5usize, 7);
    k.family("triangles under offset and scale", pow(n * n, 3) * (MAPS.len() as u64 - 1), |i, x| {
        let mut e = Dec(i);
        let m = MAPS[1 + e.take(MAPS.len() - 1)];
        let (p, q, r) = (lat(e.take(n * n), n, 0), lat(e.take(n * n), n, 0), lat(e.take(n * n), n, 0));
        x.note(|| format!("{:?} {:?} {:?} {:?}", p, q, r, m));
        judge(p, q, r, &m, x)
    });
    // every power-of-two scale, every power-of-two offset
    let mut every: Vec<Map> = (-150..=150).step_by(k.q(5, 1)).map(|e| Map { ox: 0, oy: 0, s: 2f64.powi(e) }).collect();
    for e in (0..=46).step_by(k.q(2, 1)) { let o = 1i64 << e; every.extend([Map { ox: o, oy: 0, s: 1.0 }, Map { ox: 3, oy: -o, s: 2f64.powi(-30) }, Map { ox: 1 - o, oy: o - 3, s: 1.0 }]); }
    // ordinates that need all their bits
    for e in (24..=48).step_by(k.q(8, 1)) { every.push(Map { ox: 0, oy: 0, s: 1.0 + 2f64.powi(-e) }); if e <= 36 { every.push(Map { ox: 1000, oy: -77, s: 3.0 * (1.0 - 2f64.powi(-e)) }); } }
    k.family("triangles at every scale and offset", pow(9, 3) * every.len() as u64, |i, x| {
        let mut e = Dec(i);
        let (p, q, r) = (lat(e.take(9), 3, -1), lat(e.take(9), 3, -1), lat(e.take(9), 3, -1));
        let m = *e.of(&every);
        x.note(|| format!("{:?} {:?} {:?} {:?}", p, q, r, m));
        judge(p, q, r, &m, x)?;
        // closed point-in-triangle on the half-unit lattice
        let (p, q, r) = ((2 * p.0, 2 * p.1), (2 * q.0, 2 * q.1), (2 * r.0, 2 * r.1));
        let cr = cross(sub(q, p), sub(r, p)).signum();
        if cr == 0 { return Ok(()); }
        for j in 0..25 {
            let s = lat(j, 5, -2);
            let w = [cross(sub(q, p), sub(s, p)), cross(sub(r, q), sub(s, q)), cross(sub(p, r), sub(s, r))].iter().all(|v| v * cr >= 0);
            let g = Triangle::intersects_coordinates(&m.c(p), &m.c(q), &m.c(r), &m.c(s));
            x.t(1);
            ensure!(g == w, "triangle {:?} {:?} {:?} {:?} and point {:?}: {} not {}", p, q, r, m, s, g, w);
        }
        Ok(())
    });
    // needles: the extended precision circumcentre stays exact where the plain one need not
    let e = k.q(4i64, 9);
    let w = (2 * e + 1) as usize;
    let bs: Vec<I> = vec![(1 << 22, 1 << 23), ((1 << 22) - 7, (1 << 21) + 3), (3, 1 << 23), (-(1 << 20), 1 << 22), (1 << 23, 1)];
    k.family("needle triangles", bs.len() as u64 * 3 * pow(w, 4) * 2, |i, x| {
        let mut f = Dec(i);
        let b = *f.of(&bs);
        let rot = f.take(3);
        let sw = f.bit();
        let mut o = || f.take(w) as i64 - e;
        let mut v = [(0, 0), (b.0 + o(), b.1 + o()), (2 * b.0 + o(), 2 * b.1 + o())];
        v.rotate_left(rot);
        if sw { v.swap(0, 1); }
        let [p, q, r] = v;
        let cr = cross(sub(q, p), sub(r, p));
        x.note(|| format!("{:?} {:?} {:?} doubled area {}", p, q, r, cr));
        let m = &MAPS[0];
        let (a, b, c) = (m.c(p), m.c(q), m.c(r));
        x.t(4);
        ensure!(Triangle::is_ccw_coordinates(&a, &b, &c) == (cr > 0), "is_ccw {:?} {:?} {:?}", p, q, r);
        ensure!(Triangle::signed_area_coordinates(&a, &b, &c) == -(cr as f64) / 2.0, "signed area {:?} {:?} {:?} = {}", p, q, r, Triangle::signed_area_coordinates(&a, &b, &c));
        if cr == 0 { x.out("flat needle"); ensure!(Triangle::circumradius_coordinates(&a, &b, &c) == f64::INFINITY, "circumradius of flat {:?} {:?} {:?}", p, q, r); return Ok(()); }
        x.out("needle");
        let (nx, ny, den) = ccentre(p, q, r);
        let w = (nx as f64 / den as f64 + r.0 as f64, ny as f64 / den as f64 + r.1 as f64);
        let g = Triangle::circumcentre_dd_coordinates(&a, &b, &c);
        ensure!(close(g.x, w.0, 1e-15, r.0 as f64) && close(g.y, w.1, 1e-15, r.1 as f64), "DD circumcentre of {:?} {:?} {:?} = ({:e},{:e}) not {:?}", p, q, r, g.x, g.y, w);
        let rr = d(p, q) * d(q, r) * d(r, p) / (2.0 * cr.unsigned_abs() as f64);
        let g = Triangle::circumradius_coordinates(&a, &b, &c);
        ensure!(close(g, rr, 1e-14, 0.0), "circumradius of {:?} {:?} {:?} = {} not {}", p, q, r, g, rr);
        Ok(())
    });
    // sides of very different length at the corner that is halved
    let ee: Vec<i32> = (1..=60).step_by(k.q(3, 1)).collect();
    k.family("bisectors between a long and a short side", (24 * 24 * ee.len() * 2) as u64 * 3, |i, x| {
        let mut d = Dec(i);
        let mut v = || { let v = lat(d.take(24), 5, -2); if v == (0, 0) { (2i64, 2i64) } else { v } };
        let (p, r) = (v(), v());
        let e = *d.of(&ee);
        let swap = d.bit();
        let s = *d.of(&[1.0, 2f64.powi(-40), 2f64.powi(50)]);
        let f = 2f64.powi(-e);
        let (a, c) = ((p.0 as f64 * f * s, p.1 as f64 * f * s), (r.0 as f64 * s, r.1 as f64 * s));
        let (a, c) = if swap { (c, a) } else { (a, c) };
        x.note(|| format!("{:?} (0,0) {:?}", a, c));
        x.out("bisector");
        let g = Triangle::angle_bisector_coordinates(&Coordinate::new_xy(a.0, a.1), &Coordinate::new_xy(0.0, 0.0), &Coordinate::new_xy(c.0, c.1));
        // at the origin, the cut is a|c| + c|a| over |a| + |c|
        let (la, lc) = (a.0.hypot(a.1), c.0.hypot(c.1));
        let w = ((a.0 * lc + c.0 * la) / (la + lc), (a.1 * lc + c.1 * la) / (la + lc));
        // the cut starts from the first corner
        let tol = 1e-14 * if swap { la } else { la + la * lc / (la + lc) };
        x.t(1);
        ensure!((g.x - w.0).abs() <= tol && (g.y - w.1).abs() <= tol, "bisector of {:?} (0,0) {:?} = ({:e},{:e}) not {:?}", a, c, g.x, g.y, w);
        Ok(())
    });
    // corners anywhere: nothing about them is exact but the answer
    let vals: Vec<f64> = k.q(vec![0.1, -1.0 / 3.0, 123456.789, -9.87e6], vec![0.1, -0.7, 1.0 / 3.0, 123456.789, -9.87e6, 1e-5]);
    let dir: Vec<(f64, f64)> = vec![(1.0, 0.0), (0.0, 1.0), (0.6180339887, -0.31415926), (-1.1, 1.3), (0.01, 0.9), (-0.3, -0.07)];
    let sz: Vec<f64> = k.q(vec![1e-3, 0.7, 1e5, 3e8, 1e14], vec![1e-6, 1e-3, 0.7, 77.7, 1e5, 1e7, 3e8, 1e11, 1e14]);
    let cut: Vec<f64> = vec![0.5, 0.1, 2.3, -0.9, 1.0];
    let off: Vec<f64> = k.q(vec![1.0, -0.2, 1e-4, -1e-8, 1e-11, 0.0], vec![1.0, -0.2, 1e-2, 1e-4, 1e-6, -1e-8, 1e-10, 1e-11, 1e-12, 1e-14, 0.0]);
    k.family("triangles off the lattice", (vals.len() * vals.len() * dir.len() * sz.len() * cut.len() * off.len() * 6 * 5) as u64, |i, x| {
        let mut e = Dec(i);
        let p = (*e.of(&vals), *e.of(&vals));
        let (v, l, f, o) = (*e.of(&dir), *e.of(&sz), *e.of(&cut), *e.of(&off));
        let q = (p.0 + v.0 * l, p.1 + v.1 * l);
        let r = (p.0 + v.0 * l * f - v.1 * l * o, p.1 + v.1 * l * f + v.0 * l * o);
        let mut t = [p, q, r];
        t.rotate_left(e.take(3));
        if e.bit() { t.swap(0, 1); }
        let j = e.take(5) as i64 - 2;
        t[1].0 = ulp(t[1].0, j);
        t[2].1 = ulp(t[2].1, -j / 2);
        let [a, b, c] = t.map(|v| Coordinate::new_xy(v.0, v.1));
        let w = || format!("{:?}", t);
        x.note(w);
        let df = |x: f64, y: f64| Dy::new(x).sub(&Dy::new(y));
        let (ax, ay, bx, by) = (df(a.x, c.x), df(a.y, c.y), df(b.x, c.x), df(b.y, c.y));
        let (l1, l2) = (ax.mul(&by), ay.mul(&bx));
        let det = l1.sub(&l2);
        let big = l1.abs().add(&l2.abs()).f64();
        let eps = f64::EPSILON;
        // the differences the area is computed from are those from the first corner
        let (ux, uy, vx, vy) = (df(c.x, a.x), df(c.y, a.y), df(b.x, a.x), df(b.y, a.y));
        let abig = ux.mul(&vy).abs().add(&vx.mul(&uy).abs()).f64();
        let sa = -det.f64() / 2.0;
        let (g, h) = (Triangle::signed_area_coordinates(&a, &b, &c), Triangle::area_coordinates(&a, &b, &c));
        ensure!((g - sa).abs() <= 2.0 * eps * abig && h == g.abs(), "areas of {} are {:e}, {:e} not {:e}", w(), g, h, sa);
        if let Some(s) = orient_claimed(t[0], t[1], t[2]) { ensure!(Triangle::is_ccw_coordinates(&a, &b, &c) == (s > 0), "is_ccw of {}", w()); }
        let side = |x: &Dy, y: &Dy| x.sq().add(&y.sq()).f64().sqrt();
        let (sb, sc, sd) = (side(&ax, &ay), side(&bx, &by), side(&vx, &vy));
        let g = Triangle::length_coordinates(&a, &b, &c);
        ensure!(close(g, sb + sc + sd, 4.0 * eps, 0.0), "perimeter of {} is {:e} not {:e}", w(), g, sb + sc + sd);
        let g = Triangle::longest_side_length_coordinates(&a, &b, &c);
        ensure!(close(g, sb.max(sc).max(sd), 4.0 * eps, 0.0), "longest side of {} is {:e} not {:e}", w(), g, sb.max(sc).max(sd));
        x.t(5);
        let mx = [a.x, b.x, c.x].iter().fold(0.0f64, |m, v| m.max(v.abs()));
        let my = [a.y, b.y, c.y].iter().fold(0.0f64, |m, v| m.max(v.abs()));
        let d = |v: f64| Dy::new(v);
        let g = Triangle::centroid_coordinates(&a, &b, &c);
        let (u, v) = (d(a.x).add(&d(b.x)).add(&d(c.x)), d(a.y).add(&d(b.y)).add(&d(c.y)));
        ensure!((d(g.x).mul(&Dy::int(3)).sub(&u).f64() / 3.0).abs() <= 4.0 * eps * mx && (d(g.y).mul(&Dy::int(3)).sub(&v).f64() / 3.0).abs() <= 4.0 * eps * my, "centroid of {} is ({:e},{:e})", w(), g.x, g.y);
        x.t(1);
        // the circumcentre, to the accuracy its determinants keep
        if det.is_zero() { x.out("flat"); return Ok(()); }
        let kap = big / det.abs().f64();
        let (asq, bsq) = (ax.sq().add(&ay.sq()), bx.sq().add(&by.sq()));
        let (nx, ny) = (by.mul(&asq).sub(&ay.mul(&bsq)), ax.mul(&bsq).sub(&bx.mul(&asq)));
        let den = det.scale2(1);
        let off = [Rat::new(nx.clone(), den.clone()).f64(), Rat::new(ny.clone(), den.clone()).f64()];
        let ex = [Rat::new(nx, den.clone()).add(&Rat::of(c.x)), Rat::new(ny, den.clone()).add(&Rat::of(c.y))];
        let ns = [(by.abs().mul(&asq).add(&ay.abs().mul(&bsq))).f64(), (ax.abs().mul(&bsq).add(&bx.abs().mul(&asq))).f64()];
        for (nm, g, unit) in [("circumcentre", Triangle::circumcentre_coordinates(&a, &b, &c), 8.0 * eps), ("DD circumcentre", Triangle::circumcentre_dd_coordinates(&a, &b, &c), 2f64.powi(-97))] {
            if !(kap * unit < 1e-3) { x.out(if unit > 1e-20 { "too thin for doubles" } else { "too thin" }); continue; }
            x.t(1);
            for (v, j) in [(g.x, 0), (g.y, 1)] {
                let tol = 4.0 * unit * (ns[j] / den.abs().f64() + kap * off[j].abs()) + 2.0 * eps * if unit > 1e-20 { ex[j].f64().abs().max(off[j].abs()) } else { ex[j].f64().abs() };
                let er = Rat::of(v).sub(&ex[j]).f64().abs();
                ensure!(er <= tol, "{} of {} has ordinate {} at {:e}, {:e} away from {:e} (allowed {:e})", nm, w(), j, v, er, ex[j].f64(), tol);
            }
            x.out("centre");
        }
        if abig / det.abs().f64() < 1e9 {
            let rr = sb * sc * sd / (2.0 * det.abs().f64());
            let g = Triangle::circumradius_coordinates(&a, &b, &c);
            x.t(1);
            ensure!((g - rr).abs() <= 8.0 * eps * (abig / det.abs().f64() + 2.0) * rr, "circumradius of {} is {:e} not {:e}", w(), g, rr);
        }
        Ok(())
    });
    // closed point-in-triangle
    let n = k.q(5usize, 8);
    let h = 2 * n - 1;
    k.family("points and triangles", pow(n * n, 3) * (h * h) as u64, |i, x| {
        let mut e = Dec(i);
        let (p, q, r) = (lat(e.take(n * n), n, 0), lat(e.take(n * n), n, 0), lat(e.take(n * n), n, 0));
        let s = lat(e.take(h * h), h, 0); // half-unit lattice
        let (p, q, r) = ((2 * p.0, 2 * p.1), (2 * q.0, 2 * q.1), (2 * r.0, 2 * r.1));
        let cr = cross(sub(q, p), sub(r, p)).signum();
        if cr == 0 { return x.skip(); }
        let o = [cross(sub(q, p), sub(s, p)) * cr, cross(sub(r, q), sub(s, q)) * cr, cross(sub(p, r), sub(s, r)) * cr];
        let w = o.iter().all(|v| *v >= 0);
        x.note(|| format!("{:?} {:?} {:?} point {:?} {}", p, q, r, s, w));
        x.out(if !w { "outside" } else if o.iter().any(|v| *v == 0) { "on boundary" } else { "inside" });
        let m = [MAPS[0], MAPS[1], MAPS[2], MAPS[3], Map { ox: 0, oy: 0, s: 1.0 + 2f64.powi(-40) }, Map { ox: 17, oy: -1000, s: 1.0 - 2f64.powi(-36) }][(i % 6) as usize];
        let g = Triangle::intersects_coordinates(&m.c(p), &m.c(q), &m.c(r), &m.c(s));
        x.t(1);
        ensure!(g == w, "triangle {:?} {:?} {:?} {:?} and point {:?}: {} not {}", p, q, r, m, s, g, w);
        // the plane through the corners
        let zs: [(i64, i64, i64); 5] = [(0, 0, 0), (1, 2, 4), (-3, 5, 7), (1 << 20, 0, -1), ((1 << 30) + 1, (1 << 31) - 1, 5)];
        plane(p, q, r, s, zs[(i / 7 % 5) as usize], 1.0, &m, x)
    });
    // the plane with Z of every magnitude, over a triangle of every magnitude
    let st = k.q(15usize, 5);
    let mut pz: Vec<(Map, f64)> = vec![];
    for e in (-150..=150).step_by(st) { let s = 2f64.powi(e); pz.extend([(Map { ox: 0, oy: 0, s }, 1.0), (Map { ox: 0, oy: 0, s: 1.0 }, 2f64.powi(3 * e)), (Map { ox: 3, oy: -7, s: s * 0.7 }, 2f64.powi(2 * e) * 1.3), (Map { ox: 0, oy: 0, s }, 2f64.powi(-2 * e))]); }
    for e in (1..=45).step_by(k.q(4, 1)) { let o = 1i64 << e; pz.extend([(Map { ox: o, oy: 0, s: 1.0 }, 0.1), (Map { ox: 3, oy: -o, s: 2f64.powi(30) }, 1e12), (Map { ox: -o, oy: o, s: 2f64.powi(-30) }, 1e-12)]); }
    k.family("Z of the plane at every magnitude", pow(9, 4) * pz.len() as u64, |i, x| {
        let mut e = Dec(i);
        let (p, q, r, s) = (lat(e.take(9), 3, -1), lat(e.take(9), 3, -1), lat(e.take(9), 3, -1), lat(e.take(9), 3, -1));
        let (m, zf) = *e.of(&pz);
        if cross(sub(q, p), sub(r, p)) == 0 { return x.skip(); }
        x.note(|| format!("{:?} {:?} {:?} point {:?} {:?} {:e}", p, q, r, s, m, zf));
        plane(p, q, r, s, (7, -20, 33), zf, &m, x)
    });
    // area in space
    let n = k.q(4usize, 6);
    let c3 = n * n * n;
    k.family("triangles in space", pow(c3, 3) * 5, |i, x| {
        let mut e = Dec(i);
        let g3 = |q: usize| ((q % n) as i64, (q / n % n) as i64, (q / n / n) as i64);
        let (a, b, c) = (g3(e.take(c3)), g3(e.take(c3)), g3(e.take(c3)));
        let (off, s) = *e.of(&[((0, 0, 0), 1.0), ((1000, -2000, 30000), 0.25), ((-1, 1 << 30, -(1 << 30)), 1024.0), ((0, 0, 0), 1.0 + 2f64.powi(-40)), ((5, -1000, 77), 3.0 - 2f64.powi(-30))]);
        let co = |v: (i64, i64, i64)| Coordinate::new_xyz((v.0 + off.0) as f64 * s, (v.1 + off.1) as f64 * s, (v.2 + off.2) as f64 * s);
        let u = (b.0 - a.0, b.1 - a.1, b.2 - a.2);
        let v = (c.0 - a.0, c.1 - a.1, c.2 - a.2);
        let x2 = (u.1 * v.2 - u.2 * v.1).pow(2) + (u.2 * v.0 - u.0 * v.2).pow(2) + (u.0 * v.1 - u.1 * v.0).pow(2);
        let w = (x2 as f64).sqrt() / 2.0 * s * s;
        x.note(|| format!("{:?} {:?} {:?} area {}", a, b, c, w));
        x.out(if x2 == 0 { "flat in space" } else { "area in space" });
        for (f, g) in [("static", Triangle::area_3d_coordinates(&co(a), &co(b), &co(c))), ("method", Triangle::new(&co(a), &co(b), &co(c)).area_3d())] {
            x.t(1);
            ensure!(close(g, w, 1e-15, 0.0), "3D area ({}) of {:?} {:?} {:?} offset {:?} = {} not {}", f, a, b, c, off, g, w);
        }
        Ok(())
    });
    let sc = (-150i32..=150).step_by(k.q(5, 1)).collect::<Vec<_>>();
    k.family("triangles in space at every scale", pow(8, 3) * sc.len() as u64 * 3, |i, x| {
        let mut e = Dec(i);
        let g3 = |q: usize| ((q % 2 * 3) as i64, (q / 2 % 2 * 2) as i64, (q / 4) as i64);
        let (a, b, c) = (g3(e.take(8)), g3(e.take(8)), g3(e.take(8)));
        let s = 2f64.powi(*e.of(&sc)) * e.of(&[1.0, 0.7, 1.9]);
        let co = |v: (i64, i64, i64)| Coordinate::new_xyz(v.0 as f64 * s, v.1 as f64 * s, v.2 as f64 * s);
        let (u, v) = ((b.0 - a.0, b.1 - a.1, b.2 - a.2), (c.0 - a.0, c.1 - a.1, c.2 - a.2));
        let x2 = (u.1 * v.2 - u.2 * v.1).pow(2) + (u.2 * v.0 - u.0 * v.2).pow(2) + (u.0 * v.1 - u.1 * v.0).pow(2);
        let w = (x2 as f64).sqrt() / 2.0 * s * s;
        x.note(|| format!("{:?} {:?} {:?} scale {:e} area {:e}", a, b, c, s, w));
        x.out(if x2 == 0 { "flat in space" } else { "area in space" });
        for (f, g) in [("static", Triangle::area_3d_coordinates(&co(a), &co(b), &co(c))), ("method", Triangle::new(&co(a), &co(b), &co(c)).area_3d())] {
            x.t(1);
            ensure!(close(g, w, 4e-15, 0.0) || (x2 == 0 && g >= 0.0 && g <= 1e-7 * s * s), "3D area ({}) of {:?} {:?} {:?} scale {:e} = {:e} not {:e}", f, a, b, c, s, g, w);
        }
        Ok(())
    });
    let al = [0.0, 1.0, -2.5, 3.0, 1e8, -7.0, 0.1, (1i64 << 50) as f64 + 3.0];
    k.family("2x2 determinants", pow(al.len(), 4), |i, x| {
        let mut e = Dec(i);
        let v = [*e.of(&al), *e.of(&al), *e.of(&al), *e.of(&al)];
        x.t(1);
        x.out("determinant");
        ensure!(Triangle::det_f64(v[0], v[1], v[2], v[3]) == v[0] * v[3] - v[1] * v[2], "det {:?} = {}", v, Triangle::det_f64(v[0], v[1], v[2], v[3]));
        Ok(())
    });
    k.finish()
}
