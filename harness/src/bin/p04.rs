// P04 Intersection of two infinite lines is the true intersection point
use geos_rs::verif::*;
use geosmc::{ensure, exact::*, geo::*, mc::*, num::ulp};

fn c(p: P) -> Coordinate { Coordinate::new_xy(p.0, p.1) }
#[derive(Clone, Copy)]
struct Map { ox: i64, oy: i64, s: f64 }
impl Map {
    fn f(&self, p: I) -> P { ((p.0 + self.ox) as f64 * self.s, (p.1 + self.oy) as f64 * self.s) }
}
const ID: Map = Map { ox: 0, oy: 0, s: 1.0 };

/// the entry points: name, accuracy class, result
fn entries(p: &[Coordinate]) -> Vec<(&'static str, char, Option<Coordinate>)> {
    let (a, b, e, f) = (&p[0], &p[1], &p[2], &p[3]);
    let h = |g: Coordinate| if g.x.is_nan() || g.y.is_nan() { None } else { Some(g) };
    let l1 = HCoordinate::new_with_coordinates(a, b);
    let l2 = HCoordinate::new_with_coordinates(e, f);
    // lines through two homogeneous points, then their meeting point
    let hp = |q: &Coordinate| HCoordinate::new_with_coordinate(q);
    let m1 = HCoordinate::new_with_hcoordinates(&hp(a), &HCoordinate::new_with_xy(b.x, b.y));
    let m2 = HCoordinate::new_with_hcoordinates(&HCoordinate::new_with_xyw(e.x, e.y, 1.0), &hp(f));
    vec![
        ("Intersection::intersection", 'd', Intersection::intersection(a, b, e, f)),
        ("CGAlgorithmsDD::intersection", 'd', CGAlgorithmsDD::intersection(a, b, e, f)),
        ("LineSegment::line_intersection", 'd', LineSegment::new_from_coordinates(a, b).line_intersection(LineSegment::new_from_coordinates(e, f))),
        ("Intersection::intersection_fp", 'f', Intersection::intersection_fp(a, b, e, f)),
        ("HCoordinate::intersection", 'h', HCoordinate::intersection(a, b, e, f)),
        ("HCoordinate of four points", 'h', h(HCoordinate::new_with_coordinates_4(a, b, e, f).get_coordinate())),
        ("HCoordinate of two lines", 'h', h(HCoordinate::new_with_hcoordinates(&l1, &l2).get_coordinate())),
        ("HCoordinate of homogeneous points", 'h', h(HCoordinate::new_with_hcoordinates(&m1, &m2).get_coordinate())),
    ]
}

fn judge(s: [I; 4], m: Map, hom: bool, x: &mut Ctx) -> Res {
    if s[0] == s[1] || s[2] == s[3] { return x.skip(); }
    let p: Vec<Coordinate> = s.iter().map(|&q| c(m.f(q))).collect();
    let w = lines_cross(s[0], s[1], s[2], s[3]);
    x.out(if w.is_some() { "crossing lines" } else if orient_i(s[0], s[1], s[2]) == 0 { "coincident lines" } else { "parallel lines" });
    // extents for the error bounds: of all points from the origin, and from each other
    let big = p.iter().map(|q| q.x.abs().max(q.y.abs())).fold(0.0, f64::max);
    let mut ext = 0.0f64;
    for a in &p { for b in &p { ext = ext.max((a.x - b.x).abs()).max((a.y - b.y).abs()); } }
    for (name, class, g) in entries(&p) {
        if class == 'h' && !hom { continue; }
        // plain floating point cannot tell lines this close to parallel apart
        if class == 'f' && w.map(|w| 64.0 * f64::EPSILON * ext * ext >= (w.2 as f64 * m.s * m.s).abs()).unwrap_or(false) { continue; }
        x.t(1);
        match (w, &g) {
            (None, None) => {}
            (None, Some(g)) => return Err(format!("{}: {:?} are parallel but got ({:e},{:e})", name, s, g.x, g.y)),
            (Some(_), None) => return Err(format!("{}: {:?} cross but got nothing", name, s)),
            (Some((nx, ny, d)), Some(g)) => {
                let ex = Rat::new(Dy::int(nx + m.ox as i128 * d).mul(&Dy::new(m.s)), Dy::int(d)).f64();
                let ey = Rat::new(Dy::int(ny + m.oy as i128 * d).mul(&Dy::new(m.s)), Dy::int(d)).f64();
                let ws = (d as f64 * m.s * m.s).abs();
                let at = ex.abs().max(ey.abs());
                let tol = match class {
                    'd' => 8.0 * f64::EPSILON * at + big * big * big / ws * 2f64.powi(-97),
                    'f' => 16.0 * f64::EPSILON * (ext * ext * ext / ws + at + big),
                    _ => 16.0 * f64::EPSILON * (big * big * big / ws + at),
                };
                if !((g.x - ex).abs() <= tol && (g.y - ey).abs() <= tol) {
                    return Err(format!("{}: lines {:?} (offset {},{} scale {}) meet at ({:e},{:e}) but got ({:e},{:e})", name, s, m.ox, m.oy, m.s, ex, ey, g.x, g.y));
                }
            }
        }
    }
    Ok(())
}

/// the meeting point (x, y) of the lines through arbitrary points, and the weight (twice the
/// crossing area) it divides by
fn meet(p: &[P; 4]) -> Option<(f64, f64, f64)> {
    let d = |a: f64, b: f64| Dy::new(a).sub(&Dy::new(b));
    let (ux, uy, vx, vy) = (d(p[1].0, p[0].0), d(p[1].1, p[0].1), d(p[3].0, p[2].0), d(p[3].1, p[2].1));
    let w = ux.mul(&vy).sub(&uy.mul(&vx));
    if w.is_zero() { return None; }
    let t = d(p[2].0, p[0].0).mul(&vy).sub(&d(p[2].1, p[0].1).mul(&vx));
    let at = |o: f64, u: &Dy| Rat::new(Dy::new(o).mul(&w).add(&u.mul(&t)), w.clone()).f64();
    Some((at(p[0].0, &ux), at(p[0].1, &uy), w.abs().f64()))
}

/// the same judgement for points off the lattice, whose differences floating point rounds
fn rough(p: [P; 4], x: &mut Ctx) -> Res {
    if p[0] == p[1] || p[2] == p[3] { return x.skip(); }
    // lines that are exactly parallel are judged on the lattice, where products are exact
    let Some((ex, ey, ws)) = meet(&p) else { return x.skip() };
    let q: Vec<Coordinate> = p.iter().map(|&v| c(v)).collect();
    let big = q.iter().map(|q| q.x.abs().max(q.y.abs())).fold(0.0, f64::max);
    let mut ext = 0.0f64;
    for a in &q { for b in &q { ext = ext.max((a.x - b.x).abs()).max((a.y - b.y).abs()); } }
    let at = ex.abs().max(ey.abs());
    let eps = f64::EPSILON;
    // an error in the weight moves the point along the lines
    let off = (ex - p[0].0).abs().max((ey - p[0].1).abs());
    let tight = 8.0 * eps * at + big * big * (big + off) / ws * 2f64.powi(-97);
    for (name, class, g) in entries(&q) {
        let tol = match class {
            'd' => tight,
            'f' if 64.0 * eps * ext * ext >= ws => continue,
            'f' => 16.0 * eps * (ext * ext * (ext + off) / ws + at + big),
            _ if 64.0 * eps * big * big >= ws => continue,
            _ => 16.0 * eps * (big * big * (big + at) / ws + at),
        };
        // so nearly parallel that even double-double cannot place the point
        if tol > 0.1 * at + ext { x.out("beyond double-double"); continue; }
        x.t(1);
        ensure!(g.is_some(), "{}: {:?} cross but got nothing", name, p);
        let g = g.unwrap();
        ensure!((g.x - ex).abs() <= tol && (g.y - ey).abs() <= tol, "{}: lines {:?} meet at ({:e},{:e}) but got ({:e},{:e})", name, p, ex, ey, g.x, g.y);
        x.out("located");
    }
    // against the segment p2 p3
    let (Some(o1), Some(o2)) = (orient_claimed(p[0], p[1], p[2]), orient_claimed(p[0], p[1], p[3])) else { return Ok(()) };
    let g = Intersection::line_segment(&q[0], &q[1], &q[2], &q[3]);
    x.t(1);
    if o1 * o2 > 0 { ensure!(g.is_none(), "line {:?} misses the segment but got a point", p); return Ok(()); }
    ensure!(g.is_some(), "line {:?} meets the segment but got nothing", p);
    let g = g.unwrap();
    if o1 == 0 || o2 == 0 {
        let ok = |k: usize, o: i32| o == 0 && g.x == p[k].0 && g.y == p[k].1;
        ensure!(ok(2, o1) || ok(3, o2), "line {:?} touches the segment at an end point but got ({:e},{:e})", p, g.x, g.y);
        return Ok(());
    }
    let tol = tight;
    ensure!((g.x - ex).abs() <= tol && (g.y - ey).abs() <= tol, "line {:?} crosses the segment at ({:e},{:e}) but got ({:e},{:e})", p, ex, ey, g.x, g.y);
    Ok(())
}

/// infinite line against segment
fn line_seg(s: [I; 4], m: Map, x: &mut Ctx) -> Res {
    if s[0] == s[1] { return x.skip(); }
    let p: Vec<Coordinate> = s.iter().map(|&q| c(m.f(q))).collect();
    let g = Intersection::line_segment(&p[0], &p[1], &p[2], &p[3]);
    x.t(1);
    let (o1, o2) = (orient_i(s[0], s[1], s[2]), orient_i(s[0], s[1], s[3]));
    if o1 * o2 > 0 {
        x.out("segment beside line");
        ensure!(g.is_none(), "line {:?}{:?} misses segment {:?}{:?} but got a point", s[0], s[1], s[2], s[3]);
        return Ok(());
    }
    ensure!(g.is_some(), "line {:?}{:?} meets segment {:?}{:?} but got nothing", s[0], s[1], s[2], s[3]);
    let g = g.unwrap();
    if o1 == 0 || o2 == 0 {
        x.out("segment touches line");
        let ok = |k: usize, o: i32| o == 0 && g.x == p[k].x && g.y == p[k].y;
        ensure!(ok(2, o1) || ok(3, o2), "line {:?}{:?} touches segment {:?}{:?} at an end point but got ({},{})", s[0], s[1], s[2], s[3], g.x, g.y);
        return Ok(());
    }
    x.out("segment crosses line");
    let (nx, ny, d) = lines_cross(s[0], s[1], s[2], s[3]).unwrap();
    let ex = Rat::new(Dy::int(nx + m.ox as i128 * d).mul(&Dy::new(m.s)), Dy::int(d)).f64();
    let ey = Rat::new(Dy::int(ny + m.oy as i128 * d).mul(&Dy::new(m.s)), Dy::int(d)).f64();
    let big = p.iter().map(|q| q.x.abs().max(q.y.abs())).fold(0.0, f64::max);
    let tol = 8.0 * f64::EPSILON * big + big * big * big / (d as f64 * m.s * m.s).abs() * 2f64.powi(-97);
    ensure!((g.x - ex).abs() <= tol && (g.y - ey).abs() <= tol, "line {:?}{:?} crosses segment {:?}{:?} at ({},{}) but got ({},{})", s[0], s[1], s[2], s[3], ex, ey, g.x, g.y);
    Ok(())
}

fn main() {
    let mut k = Check::new("P04");
    let n = k.q(5usize, 8);
    k.family("pairs of lines through lattice points", pow(n * n, 4), |i, x| {
        let mut d = Dec(i);
        let s = [0; 4].map(|_| lat(d.take(n * n), n, -2));
        x.note(|| format!("{:?}", s));
        judge(s, ID, true, x)
    });
    k.family("lines against segments", pow(n * n, 4), |i, x| {
        let mut d = Dec(i);
        let s = [0; 4].map(|_| lat(d.take(n * n), n, -2));
        x.note(|| format!("{:?}", s));
        line_seg(s, ID, x)
    });
    let maps: Vec<Map> = vec![Map { ox: 1000, oy: -777, s: 1.0 }, Map { ox: 1 << 20, oy: (1 << 21) + 1, s: 0.25 }, Map { ox: 0, oy: 0, s: 2f64.powi(-90) }, Map { ox: 0, oy: 0, s: 2f64.powi(70) },
        Map { ox: -(1 << 40) - 1, oy: 3, s: 1.0 }, Map { ox: (1 << 45) + 1, oy: (1 << 45) - 1, s: -0.5 }, Map { ox: 3, oy: -(1 << 50), s: 1.0 }];
    let n = k.q(4usize, 5);
    k.family("pairs of lines under offset and scale", pow(n * n, 4) * maps.len() as u64, |i, x| {
        let mut d = Dec(i);
        let s = [0; 4].map(|_| lat(d.take(n * n), n, -1));
        let m = *d.of(&maps);
        x.note(|| format!("{:?} offset ({},{}) scale {}", s, m.ox, m.oy, m.s));
        // homogeneous coordinates lose the offset: judged only near the origin
        judge(s, m, m.ox.abs() < 2000 && m.oy.abs() < 2000, x)?;
        let sk = x.skipped;
        line_seg(s, m, x)?;
        x.skipped = sk;
        Ok(())
    });
    let mut every: Vec<Map> = (-150..=150).step_by(k.q(6, 1)).map(|e| Map { ox: 0, oy: 0, s: 2f64.powi(e) }).collect();
    for e in (0..=45).step_by(k.q(5, 2)) { let o = 1i64 << e; every.extend([Map { ox: o, oy: 0, s: 1.0 }, Map { ox: 3, oy: -o - 1, s: 2f64.powi(30) }, Map { ox: -o + 1, oy: o, s: 2f64.powi(-20) }]); }
    k.family("pairs of lines at every scale and offset", pow(9, 4) * every.len() as u64, |i, x| {
        let mut d = Dec(i);
        let s = [0; 4].map(|_| lat(d.take(9), 3, -1));
        let m = *d.of(&every);
        x.note(|| format!("{:?} offset ({},{}) scale {:e}", s, m.ox, m.oy, m.s));
        judge(s, m, m.ox.abs() < 2000 && m.oy.abs() < 2000, x)?;
        let sk = x.skipped;
        line_seg(s, m, x)?;
        x.skipped = sk;
        Ok(())
    });
    // decimal points, whose differences and products floating point rounds
    let nd = k.q(12usize, 14);
    k.family("pairs of lines through decimal points", pow(nd, 4), |i, x| {
        let mut d = Dec(i);
        let p = [0; 4].map(|_| DEC[d.take(nd)]);
        x.note(|| format!("{:?}", p));
        rough(p, x)
    });
    // a line, and a second one a few units in the last place off a multiple of it
    let base: Vec<P> = vec![(0.1, 0.2), (-123.456, 7.7), (1e6 + 0.1, -1e6 / 3.0), (1e-5 / 3.0, 0.9)];
    let dir: Vec<P> = vec![(1.0 / 3.0, 0.7), (-0.9, 0.1), (1e-3, 1.0 / 7.0), (55.5, -33.3)];
    let fac = [(-2.1, 0.4), (0.3, 1.7), (-0.7, -0.1), (1.9, 3.3), (0.0, 1.1)];
    let gap = [0.0, 1e-9, -0.037, 0.6];
    let u = k.q(3i64, 5);
    let wd = (2 * u + 1) as usize;
    k.family("nearly parallel lines through decimal points", (base.len() * dir.len() * fac.len() * gap.len() * 2) as u64 * pow(wd, 3), |i, x| {
        let mut d = Dec(i);
        let (b, v, f, g) = (*d.of(&base), *d.of(&dir), *d.of(&fac), *d.of(&gap));
        let swap = d.bit();
        let mut o = || d.take(wd) as i64 - u;
        let at = |t: f64, h: f64| (b.0 + v.0 * t - v.1 * h, b.1 + v.1 * t + v.0 * h);
        let (mut q1, mut q2) = (at(f.0, g), at(f.1, g));
        q1.0 = ulp(q1.0, o());
        q1.1 = ulp(q1.1, o());
        q2.1 = ulp(q2.1, o());
        let p = if swap { [q2, q1, at(1.0, 0.0), b] } else { [b, at(1.0, 0.0), q1, q2] };
        x.note(|| format!("{:?}", p));
        rough(p, x)
    });
    // where the crossing overflows, the line meets the segment at the nearer end
    let ext: Vec<i32> = (345..=480).step_by(k.q(5, 1)).collect();
    k.family("lines against huge segments", pow(9, 4) * ext.len() as u64, |i, x| {
        let mut d = Dec(i);
        let s = [0; 4].map(|_| lat(d.take(9), 3, -1));
        let e = *d.of(&ext);
        if s[0] == s[1] { return x.skip(); }
        let m = Map { ox: 0, oy: 0, s: 2f64.powi(e) };
        let p: Vec<Coordinate> = s.iter().map(|&q| c(m.f(q))).collect();
        let g = Intersection::line_segment(&p[0], &p[1], &p[2], &p[3]);
        x.t(1);
        x.note(|| format!("{:?} scale 2^{}", s, e));
        let (o1, o2) = (orient_i(s[0], s[1], s[2]), orient_i(s[0], s[1], s[3]));
        ensure!(g.is_some() == (o1 * o2 <= 0), "line {:?}{:?} against segment {:?}{:?} at scale 2^{} gives {:?}", s[0], s[1], s[2], s[3], e, g.map(|g| (g.x, g.y)));
        if o1 * o2 > 0 { return Ok(()); }
        let g = g.unwrap();
        let end = |k: usize| g.x == p[k].x && g.y == p[k].y;
        if o1 == 0 || o2 == 0 { x.out("touches"); ensure!((o1 == 0 && end(2)) || (o2 == 0 && end(3)), "line {:?}{:?} touches segment {:?}{:?} at scale 2^{} but got ({:e},{:e})", s[0], s[1], s[2], s[3], e, g.x, g.y); return Ok(()); }
        let (nx, ny, w) = lines_cross(s[0], s[1], s[2], s[3]).unwrap();
        let (cx, cy) = (nx as f64 / w as f64 * m.s, ny as f64 / w as f64 * m.s);
        let area = |k: usize| { let (a, b, q) = (s[0], s[1], s[k]); ((b.0 - a.0) * (q.1 - a.1) - (b.1 - a.1) * (q.0 - a.0)).abs() };
        let near = (end(2) && area(2) <= area(3)) || (end(3) && area(3) <= area(2));
        let at = (g.x - cx).abs() <= m.s * 1e-12 && (g.y - cy).abs() <= m.s * 1e-12;
        x.out(if at { "crossing" } else { "nearer end" });
        ensure!(at || near, "line {:?}{:?} crosses segment {:?}{:?} at scale 2^{} near ({:e},{:e}) but got ({:e},{:e})", s[0], s[1], s[2], s[3], e, cx, cy, g.x, g.y);
        Ok(())
    });
    // reading a homogeneous point: the point at infinity has no plane coordinates
    let hv = [0.0, 1.0, -2.0, 3.0, 0.125, 1e-300, 1e200];
    k.family("homogeneous points", pow(hv.len(), 3), |i, x| {
        let mut d = Dec(i);
        let (a, b, w) = (*d.of(&hv), *d.of(&hv), *d.of(&hv));
        let h = HCoordinate::new_with_xyw(a, b, w);
        let want = |v: f64| { let q = v / w; if q.is_finite() { q } else { f64::NAN } };
        x.t(3);
        x.note(|| format!("({},{},{})", a, b, w));
        ensure!(geosmc::num::same(h.get_x(), want(a)) && geosmc::num::same(h.get_y(), want(b)), "point ({:e},{:e},{:e}) reads ({:e},{:e})", a, b, w, h.get_x(), h.get_y());
        let g = h.get_coordinate();
        ensure!(geosmc::num::same(g.x, want(a)) && geosmc::num::same(g.y, want(b)), "point ({:e},{:e},{:e}) as a coordinate is ({:e},{:e})", a, b, w, g.x, g.y);
        let o = HCoordinate::default();
        ensure!(o.get_x() == 0.0 && o.get_y() == 0.0, "the default homogeneous point is not the origin");
        Ok(())
    });
    let dirs: Vec<I> = vec![((1 << 40) + 1, 1 << 39), (-(1 << 34) - 5, (1 << 35) + 7), (1000, 1001), (1 << 10, 1), ((1 << 20) - 1, 1 << 19), (-(1 << 23) - 3, 1 << 22), (1 << 24, 0), (0, -(1 << 24))];
    let u = k.q(3i64, 6);
    let w = (2 * u + 1) as usize;
    let cuts: Vec<i64> = vec![-9, 0, 2, 6, 30];
    k.family("nearly parallel lines", (dirs.len() * w * w * w * w * cuts.len() * 2) as u64, |i, x| {
        let mut d = Dec(i);
        let e = *d.of(&dirs);
        let t = *d.of(&cuts);
        let mut o = || d.take(w) as i64 - u;
        let q1 = (e.0 * t / 6 + o(), e.1 * t / 6 + o());
        let q2 = (e.0 * (t + 5) / 6 + o(), e.1 * (t + 5) / 6 + o());
        let s = if d.bit() { [(0, 0), e, q1, q2] } else { [q2, q1, e, (0, 0)] };
        x.note(|| format!("{:?}", s));
        judge(s, ID, false, x)?;
        let sk = x.skipped;
        line_seg(s, ID, x)?;
        x.skipped = sk;
        Ok(())
    });
    k.finish()
}
