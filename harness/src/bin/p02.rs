// P02 Point location: ring, line and segment
use geos_rs::verif::*;
use geosmc::{ensure, exact::*, geo::DEC, mc::{*, seq as seq_}, num::ulp};
type I = (i64, i64);
type P = (f64, f64);
fn cf(p: P) -> Coordinate { Coordinate::new_xy(p.0, p.1) }
const OUT: i32 = Location::EXTERIOR;
const BND: i32 = Location::BOUNDARY;
const INT: i32 = Location::INTERIOR;

fn on_seg(p: I, a: I, b: I) -> bool {
    orient_i(a, b, p) == 0 && p.0 >= a.0.min(b.0) && p.0 <= a.0.max(b.0) && p.1 >= a.1.min(b.1) && p.1 <= a.1.max(b.1)
}
/// boundary if on an edge, else parity of the edges crossed by the ray straight up
/// (the implementation shoots its ray to the right)
fn locate(p: I, r: &[I]) -> i32 {
    let mut par = false;
    for w in r.windows(2) {
        let (a, b) = (w[0], w[1]);
        if on_seg(p, a, b) { return BND; }
        if (a.0 > p.0) != (b.0 > p.0) {
            let o = orient_i(a, b, p); // p below the edge?
            if (b.0 > a.0) == (o < 0) { par = !par; }
        }
    }
    if par { INT } else { OUT }
}
fn locate_f(p: P, r: &[P]) -> i32 {
    let mut par = false;
    for w in r.windows(2) {
        let (a, b) = (w[0], w[1]);
        if on_seg_f(p, a, b) { return BND; }
        if (a.0 > p.0) != (b.0 > p.0) && (b.0 > a.0) == (orient(a, b, p) < 0) { par = !par; }
    }
    if par { INT } else { OUT }
}
fn on_seg_f(p: P, a: P, b: P) -> bool {
    p.0 >= a.0.min(b.0) && p.0 <= a.0.max(b.0) && p.1 >= a.1.min(b.1) && p.1 <= a.1.max(b.1) && orient(a, b, p) == 0
}
fn seq(v: &Vec<Coordinate>, kind: usize) -> CoordinateArraySequence {
    match kind {
        0 => CoordinateArraySequence::new_with_coordinates(v),
        1 => CoordinateArraySequence::new_with_coordinates_dimension_measures(v.clone(), 2, 0),
        2 => { let w = v.iter().enumerate().map(|(k, c)| Coordinate::new_xyz(c.x, c.y, k as f64)).collect(); CoordinateArraySequence::new_with_coordinates(&w) }
        _ => { let w = v.iter().enumerate().map(|(k, c)| Coordinate::new_xym(c.x, c.y, -(k as f64))).collect(); CoordinateArraySequence::new_with_coordinates(&w) }
    }
}
fn packed(v: &Vec<Coordinate>, kind: usize) -> PackedCoordinateSequenceDouble {
    let dm = [(2, 0), (3, 0), (3, 1), (4, 1)][kind];
    let mut f = vec![];
    for (k, c) in v.iter().enumerate() { f.push(c.x); f.push(c.y); for j in 2..dm.0 { f.push((k + j as usize) as f64); } }
    PackedCoordinateSequenceDouble::new_f64_with_coordinates_dimension_measures(&f, dm.0, dm.1)
}
/// every entry point for one ring and one point
fn ring_point(p: P, v: &Vec<Coordinate>, want: i32, all: bool, x: &mut Ctx) -> Res {
    x.out(match want { INT => "interior", BND => "boundary", _ => "exterior" });
    let pc = cf(p);
    let g = RayCrossingCounter::locate_point_in_ring_vec(&pc, v);
    ensure!(g == want, "locate {:?} in ring {} = {} not {}", p, show(v), g, want);
    ensure!(PointLocation::locate_in_ring(&pc, v) == want, "PointLocation::locate_in_ring {:?} {} not {}", p, show(v), want);
    ensure!(PointLocation::is_in_ring(&pc, v) == (want != OUT), "is_in_ring {:?} {} not {}", p, show(v), want != OUT);
    x.t(3);
    if all {
        for k in 0..4 {
            let g = RayCrossingCounter::locate_point_in_ring_coordinate_array_sequence(&pc, &seq(v, k));
            ensure!(g == want, "locate {:?} in sequence layout {} {} = {} not {}", p, k, show(v), g, want);
            let g = RayCrossingCounter::locate_point_in_ring_packed_coordinate_sequence(&pc, &packed(v, k));
            ensure!(g == want, "locate {:?} in packed layout {} {} = {} not {}", p, k, show(v), g, want);
        }
        x.t(8);
    }
    Ok(())
}
fn show(v: &Vec<Coordinate>) -> String { format!("{:?}", v.iter().map(|c| (c.x, c.y)).collect::<Vec<_>>()) }

fn main() {
    let mut k = Check::new("P02");
    // every ring (self-touching, self-crossing, degenerate ones included) of 1..=N free vertices on a
    // lattice of even points, against every point of the twice finer lattice and one step outside
    let sizes: Vec<(usize, usize)> = k.q(vec![(3, 6), (4, 4), (5, 3)], vec![(3, 7), (4, 5), (5, 4), (7, 3)]);
    for (n, len) in sizes {
        let tot = seqs(n * n, 1, len);
        k.family(&format!("rings of up to {} vertices on a {}x{} lattice", len, n, n), tot, |i, x| {
            let mut d = Dec(i);
            let vs = geosmc::mc::seq(&mut d, n * n, 1, len);
            let mut r: Vec<I> = vs.iter().map(|&k| ((k % n) as i64 * 2, (k / n) as i64 * 2)).collect();
            r.push(r[0]);
            let z = |v: i64| if v == 0 && i % 2 == 1 { -0.0 } else { v as f64 };
            let v: Vec<Coordinate> = r.iter().map(|p| cf((z(p.0), p.1 as f64))).collect();
            let m = 2 * n as i64 - 1;
            x.note(|| format!("ring {:?} against {} points", r, (m + 2) * (m + 2)));
            for px in -1..=m { for py in -1..=m {
                // the sequence forms are exercised on a fixed residue class of points per ring
                let all = (px + 3 * py + i as i64) % 7 == 0;
                ring_point((px as f64, z(py)), &v, locate((px, py), &r), all, x)?;
            } }
            Ok(())
        });
    }
    // long rings: combs, stars, spirals and zigzags with horizontal runs, all starting points and both directions
    let longs = long_rings();
    let nl: usize = longs.iter().map(|r| r.len()).sum();
    let index: Vec<(usize, usize)> = longs.iter().enumerate().flat_map(|(a, r)| (0..r.len()).map(move |b| (a, b))).collect();
    k.family("long rings, every rotation and direction", (nl * 2) as u64, |i, x| {
        let mut d = Dec(i);
        let rev = d.bit();
        let (a, s) = *d.of(&index);
        let mut r = longs[a].clone();
        r.rotate_left(s);
        if rev { r.reverse(); }
        r.push(r[0]);
        let v: Vec<Coordinate> = r.iter().map(|p| cf((p.0 as f64, p.1 as f64))).collect();
        let (mut lo, mut hi) = (r[0], r[0]);
        for p in &r { lo = (lo.0.min(p.0), lo.1.min(p.1)); hi = (hi.0.max(p.0), hi.1.max(p.1)); }
        x.note(|| format!("ring of {} vertices {:?}..", r.len(), &r[..4]));
        for px in lo.0 - 1..=hi.0 + 1 { for py in lo.1 - 1..=hi.1 + 1 {
            ring_point((px as f64, py as f64), &v, locate((px, py), &r), (px + py) % 5 == 0, x)?;
        } }
        Ok(())
    });
    // rings and lines of every size up to a few hundred, probed on, beside and between their segments
    let top = k.q(280u64, 1100);
    k.family("rings and lines of every size", (top - 1) * 5 * 2, |i, x| {
        let mut d = Dec(i);
        let rev = d.bit();
        let shape = d.take(5);
        let n = d.0 as i64 + 2;
        let mut r: Vec<I> = match shape {
            0 => (0..n).map(|k| (2 * k, if k % 2 == 0 { 0 } else { 4 + 2 * (k % 5) })).collect(), // zigzag closed by one long edge
            1 => (0..n).map(|k| if k < n / 2 { (2 * k, 0) } else { (2 * (n - 1 - k), 6) }).collect(), // strip with collinear runs
            2 => (0..n).map(|k| ((k * 7919) % 83 * 2, (k * 104729) % 61 * 2)).collect(), // self-crossing walk
            3 => (0..n).map(|k| ((k / 3) * 4, (k / 3) % 2 * 8)).collect(), // repeated vertices
            _ => (0..n).map(|k| if k % 4 < 2 { (4 * (k / 4) + 2 * (k % 2), 8) } else { (4 * (k / 4) + 2, if k == n - 1 { -2 } else { 0 }) }).collect(), // crenellation, horizontal runs
        };
        if rev { r.reverse(); }
        r.push(r[0]);
        let v: Vec<Coordinate> = r.iter().map(|p| cf((p.0 as f64, p.1 as f64))).collect();
        let open: Vec<Coordinate> = v[..v.len() - 1].to_vec();
        x.note(|| format!("shape {} of {} vertices, reversed {}", shape, n, rev));
        let m = r.len() - 1;
        for s in 0..m {
            // the ends of the ring and every 16th segment (all of them when short)
            if m > 40 && s > 3 && s + 4 < m && s % 16 != i as usize % 16 { continue; }
            let (a, b) = (r[s], r[s + 1]);
            let mid = ((a.0 + b.0) / 2, (a.1 + b.1) / 2);
            for p in [a, mid, (mid.0 + 1, mid.1), (mid.0, mid.1 - 1), (a.0 - 1, a.1 + 1)] {
                let pf = (p.0 as f64, p.1 as f64);
                ring_point(pf, &v, locate(p, &r), s % 9 == 0 || s + 2 > m, x)?;
                for (line, pts) in [(&v, &r[..]), (&open, &r[..m])] {
                    let want = pts.windows(2).any(|w| on_seg(p, w[0], w[1]));
                    let g = PointLocation::is_on_line_coordinates(&cf(pf), line);
                    ensure!(g == want, "is_on_line {:?} {} = {} not {}", p, show(line), g, want);
                    if s % 9 == 0 || s + 2 > m {
                        let g = PointLocation::is_on_line_coordinate_array_sequence(&cf(pf), &seq(line, s % 4));
                        ensure!(g == want, "is_on_line {:?} sequence {} = {} not {}", p, show(line), g, want);
                    }
                    x.t(2);
                }
            }
        }
        Ok(())
    });
    // rings of more vertices than eight or sixteen bits count, probed on, beside and between chosen segments
    let hg = geosmc::geo::huge(70001);
    k.family("huge rings and lines", hg.len() as u64 * 4 * 2, |i, x| {
        let mut d = Dec(i);
        let (n, s) = *d.of(&hg);
        let (shape, rev) = (d.take(4), d.bit());
        let n = n as i64;
        let mut r: Vec<I> = match shape {
            0 => (0..n).map(|k| (2 * k, if k % 2 == 0 { 0 } else { 4 + 2 * (k % 5) })).collect(), // zigzag closed by one long edge
            1 => (0..n).map(|k| if k < n / 2 { (2 * k, 0) } else { (2 * (n - 1 - k), 6) }).collect(), // strip with collinear runs
            2 => (0..n).map(|k| if k == s as i64 { (40, 2) } else { (0, 2 * (k % 3)) }).collect(), // a thread with one spike
            _ => (0..n).map(|k| if k < s as i64 { (0, 0) } else if k == s as i64 { (20, 0) } else if k < n - 1 { (20, 20) } else { (0, 20) }).collect(), // repeated vertices
        };
        if rev { r.reverse(); }
        r.push(r[0]);
        let v: Vec<Coordinate> = r.iter().map(|p| cf((p.0 as f64, p.1 as f64))).collect();
        let open: Vec<Coordinate> = v[..v.len() - 1].to_vec();
        x.note(|| format!("shape {} of {} vertices, reversed {}, segment {}", shape, n, rev, s));
        let m = r.len() - 1;
        let (a, b) = (r[s], r[s + 1]);
        let mid = ((a.0 + b.0) / 2, (a.1 + b.1) / 2);
        for (j, p) in [a, mid, (mid.0 + 1, mid.1), (mid.0, mid.1 - 1), (a.0 - 1, a.1 + 1), (7, 3), (19, 2)].into_iter().enumerate() {
            let pf = (p.0 as f64, p.1 as f64);
            let want = locate(p, &r);
            let pc = cf(pf);
            x.out(match want { INT => "interior", BND => "boundary", _ => "exterior" });
            ensure!(RayCrossingCounter::locate_point_in_ring_vec(&pc, &v) == want && PointLocation::locate_in_ring(&pc, &v) == want && PointLocation::is_in_ring(&pc, &v) == (want != OUT), "locate {:?} in a ring of {} vertices (shape {}, reversed {}, probing segment {}) is not {}", p, n, shape, rev, s, want);
            if j < 2 || n < 5000 {
                let l = (i as usize + j) % 4;
                ensure!(RayCrossingCounter::locate_point_in_ring_coordinate_array_sequence(&pc, &seq(&v, l)) == want && RayCrossingCounter::locate_point_in_ring_packed_coordinate_sequence(&pc, &packed(&v, l)) == want, "locate {:?} in a sequence of {} vertices (shape {}, reversed {}, layout {}, probing segment {}) is not {}", p, n, shape, rev, l, s, want);
            }
            for (line, pts) in [(&v, &r[..]), (&open, &r[..m])] {
                let want = pts.windows(2).any(|w| on_seg(p, w[0], w[1]));
                ensure!(PointLocation::is_on_line_coordinates(&pc, line) == want, "is_on_line {:?} of {} points (shape {}, reversed {}, probing segment {}) is not {}", p, line.len(), shape, rev, s, want);
                if j == 1 { ensure!(PointLocation::is_on_line_coordinate_array_sequence(&pc, &seq(line, i as usize % 4)) == want, "is_on_line {:?} sequence of {} points (shape {}, reversed {}, probing segment {}) is not {}", p, line.len(), shape, rev, s, want); }
            }
            x.t(6);
        }
        Ok(())
    });
    // the same rings at every scale and far from the origin
    let es: Vec<i32> = (-240..=240).step_by(k.q(24, 8)).collect();
    let mut places: Vec<(P, P)> = vec![];
    for &a in &es { for &b in &es { places.push(((0.0, 0.0), (2f64.powi(a), 2f64.powi(b)))); } }
    for o in [1e3, -1e6 - 1.0, 2f64.powi(31), -(2f64.powi(40) + 1.0), 2f64.powi(52)] { for u in [0.0, 7.0, -2f64.powi(33) - 1.0, 2f64.powi(52)] { places.push(((o, u), (1.0, 1.0))); places.push(((u, o), (1.0, 1.0))); } }
    let len = k.q(3, 4);
    k.family("rings at every scale and offset", seqs(9, 3, len) * places.len() as u64, |i, x| {
        let mut d = Dec(i);
        let mut r: Vec<I> = geosmc::mc::seq(&mut d, 9, 3, len).iter().map(|&k| ((k % 3) as i64 * 2, (k / 3) as i64 * 2)).collect();
        r.push(r[0]);
        let ((ox, oy), (sx, sy)) = *d.of(&places);
        let g = |p: I| ((p.0 as f64 + ox) * sx, (p.1 as f64 + oy) * sy);
        let v: Vec<Coordinate> = r.iter().map(|p| cf(g(*p))).collect();
        x.note(|| format!("ring {}", show(&v)));
        for px in -1..=5 { for py in -1..=5 {
            let p = (px, py);
            ring_point(g(p), &v, locate(p, &r), (px + 2 * py + i as i64) % 11 == 0, x)?;
            let want = r[..r.len() - 1].windows(2).any(|w| on_seg(p, w[0], w[1]));
            ensure!(PointLocation::is_on_line_coordinates(&cf(g(p)), &v[..v.len() - 1].to_vec()) == want, "is_on_line {:?} {} not {}", g(p), show(&v), want);
            x.t(1);
        } }
        Ok(())
    });
    // a ray crossing hundreds of edges
    let teeth = 160i64;
    let mut comb = vec![(0, 0), (2 * teeth, 0)];
    for k in (0..teeth).rev() { comb.push((2 * k + 1, 6)); comb.push((2 * k, 2)); }
    let nc = comb.len();
    k.family("a comb of 322 vertices", 2 * 16 * 7 * 25, |i, x| {
        let mut d = Dec(i);
        let rev = d.bit();
        let mut r = comb.clone();
        r.rotate_left(d.take(16) * nc / 16);
        if rev { r.reverse(); }
        r.push(r[0]);
        let y = d.take(7) as i64;
        let v: Vec<Coordinate> = r.iter().map(|p| cf((p.0 as f64, p.1 as f64))).collect();
        let s = d.take(25) as i64;
        for t in 0..13 { let px = s * 13 + t - 2; ring_point((px as f64, y as f64), &v, locate((px, y), &r), t == 0, x)?; }
        Ok(())
    });
    // edges and points that differ in the last bits, far from the origin
    let bases: Vec<[P; 3]> = vec![
        [(12.0, 12.0), (24.0, 24.0), (30.0, 0.0)], [(0.0, 0.0), (3e7, 1e7), (1e7, 3e7)],
        [(1e9 + 1.0, 1e9), (2e9 + 1.0, 3e9), (0.0, 5e9)], [(-4e15, 1.0), (4e15, 3.0), (0.0, 1e15)], [(0.1, 0.1), (0.7, 0.7), (0.9, -0.3)],
        [(0.1, 0.1), (0.7, 0.1), (0.4, 0.9)], [(0.3, -0.7), (0.3, 0.9), (-1.1, 0.9)], [(1e-12, 0.0), (-3e-12, 0.0), (0.0, 5e-12)]];
    let r = k.q(101usize, 301);
    k.family("last-bit neighbours of ring edges and vertices", (bases.len() * 3 * 3 * r * r) as u64, |i, x| {
        let mut d = Dec(i);
        let (u, v) = (d.take(r) as i64 - r as i64 / 2, d.take(r) as i64 - r as i64 / 2);
        let t = *d.of(&bases);
        let rot = d.take(3);
        let at = d.take(3);
        let ring = vec![t[rot], t[(rot + 1) % 3], t[(rot + 2) % 3], t[rot]];
        let (a, b) = (t[0], t[1]);
        let q = match at { 0 => ((a.0 + b.0) / 2.0, (a.1 + b.1) / 2.0), 1 => a, _ => t[2] };
        let p = (ulp(q.0, u), ulp(q.1, v));
        let vv: Vec<Coordinate> = ring.iter().map(|p| cf(*p)).collect();
        if (0..3).any(|s| orient_claimed(ring[s], ring[s + 1], p).is_none()) { return x.skip(); }
        let want = locate_f(p, &ring);
        x.note(|| format!("{:?} in {:?} -> {}", p, ring, want));
        ring_point(p, &vv, want, i % 5 == 0, x)?;
        for w in ring.windows(2) {
            let want = on_seg_f(p, w[0], w[1]);
            let g = PointLocation::is_on_segment(&cf(p), &cf(w[0]), &cf(w[1]));
            ensure!(g == want, "is_on_segment({:?},{:?},{:?}) = {} not {}", p, w[0], w[1], g, want);
            x.t(1);
        }
        Ok(())
    });
    // decimal rings, and points at decimal places along their edges
    let nd = k.q(9usize, 14);
    let (fr, ul) = ([0.0, 0.1, 0.3, 0.5, 0.9, 1.0, 1.1], k.q(1i64, 2));
    let wd = (2 * ul + 1) as usize;
    let len = 4usize;
    k.family("decimal rings", seqs(nd, 3, len) * (DEC.len() + fr.len() * wd * wd) as u64, |i, x| {
        let mut d = Dec(i);
        let at = d.take(DEC.len() + fr.len() * wd * wd);
        let mut ring: Vec<P> = seq_(&mut d, nd, 3, len).iter().map(|k| DEC[*k]).collect();
        ring.push(ring[0]);
        let p = if at < DEC.len() { DEC[at] } else {
            let at = at - DEC.len();
            let (f, u, v) = (fr[at % fr.len()], at / fr.len() % wd, at / fr.len() / wd);
            let (a, b) = (ring[1], ring[2]);
            (ulp(a.0 + (b.0 - a.0) * f, u as i64 - ul), ulp(a.1 + (b.1 - a.1) * f, v as i64 - ul))
        };
        if ring.windows(2).any(|e| e[0] == e[1] || orient_claimed(e[0], e[1], p).is_none()) { return x.skip(); }
        let want = locate_f(p, &ring);
        x.note(|| format!("{:?} in {:?} -> {}", p, ring, want));
        let v: Vec<Coordinate> = ring.iter().map(|p| cf(*p)).collect();
        ring_point(p, &v, want, i % 7 == 0, x)?;
        let on = ring.windows(2).any(|w| on_seg_f(p, w[0], w[1]));
        ensure!(PointLocation::is_on_line_coordinates(&cf(p), &v) == on, "is_on_line({:?}, {:?}) is not {}", p, ring, on);
        let on = on_seg_f(p, ring[1], ring[2]);
        ensure!(PointLocation::is_on_segment(&cf(p), &v[1], &v[2]) == on, "is_on_segment({:?},{:?},{:?}) is not {}", p, ring[1], ring[2], on);
        x.t(2);
        Ok(())
    });
    // the counter fed segment by segment: every order of a ring's segments, every prefix's on-segment state
    k.family("segment feeding orders of the counter", pow(9, 4) * 24 * 25, |i, x| {
        let mut d = Dec(i);
        let mut r: Vec<I> = (0..4).map(|_| { let k = d.take(9); ((k % 3) as i64 * 2, (k / 3) as i64 * 2) }).collect();
        let o = perm(&mut d, 4);
        let p = ((d.take(5)) as i64, (d.take(5)) as i64);
        r.push(r[0]);
        let want = locate(p, &r);
        let pf = (p.0 as f64, p.1 as f64);
        let mut n = RayCrossingCounter::new_with_coordinate(&cf(pf));
        for &s in &o {
            n.count_segment(&cf((r[s + 1].0 as f64, r[s + 1].1 as f64)), &cf((r[s].0 as f64, r[s].1 as f64)));
            if n.is_on_segment() { ensure!(want == BND, "counter says on segment for {:?} in {:?} order {:?}", p, r, o); }
        }
        x.t(4);
        x.note(|| format!("{:?} in {:?}, segments fed in order {:?} -> {}", p, r, o, want));
        ensure!(n.get_location() == want, "counter fed {:?} in order {:?} at {:?} = {} not {}", r, o, p, n.get_location(), want);
        // segments crossing the ray to the right, each counting its lower end and not its upper one
        if want != BND {
            let hits = (0..4).filter(|&s| { let (a, b) = (r[s], r[s + 1]); (a.1 > p.1) != (b.1 > p.1) && (orient_i(a, b, p) > 0) == (b.1 > a.1) }).count();
            ensure!(n.get_count() == hits as i32, "the ray from {:?} to the right crosses {} segments of {:?} (order {:?}) but the counter has {}", p, hits, r, o, n.get_count());
        }
        ensure!(n.is_on_segment() == (want == BND), "is_on_segment after {:?} in order {:?} at {:?} not {}", r, o, p, want == BND);
        ensure!(n.is_point_in_polygon() == (want != OUT), "is_point_in_polygon after {:?} in order {:?} at {:?} not {}", r, o, p, want != OUT);
        Ok(())
    });
    // point on polyline (0..=4 points), vector and sequence forms
    let (n, len) = k.q((3usize, 4usize), (4, 4));
    k.family("points against polylines", seqs(n * n, 0, len), |i, x| {
        let mut d = Dec(i);
        let l: Vec<I> = geosmc::mc::seq(&mut d, n * n, 0, len).iter().map(|&k| ((k % n) as i64 * 2, (k / n) as i64 * 2)).collect();
        let v: Vec<Coordinate> = l.iter().map(|p| cf((p.0 as f64, p.1 as f64))).collect();
        x.note(|| format!("line {:?}", l));
        for px in -1..=2 * n as i64 - 1 { for py in -1..=2 * n as i64 - 1 {
            let want = l.windows(2).any(|w| on_seg((px, py), w[0], w[1]));
            let p = cf((px as f64, py as f64));
            x.out(if want { "on line" } else { "off line" });
            let g = PointLocation::is_on_line_coordinates(&p, &v);
            ensure!(g == want, "is_on_line({},{}) {:?} = {} not {}", px, py, l, g, want);
            let kind = (px + py + 2) as usize % 4;
            let g = PointLocation::is_on_line_coordinate_array_sequence(&p, &seq(&v, kind));
            ensure!(g == want, "is_on_line({},{}) sequence layout {} {:?} = {} not {}", px, py, kind, l, g, want);
            x.t(2);
        } }
        Ok(())
    });
    // point on segment over a larger lattice, moved far away
    let n = k.q(7usize, 9);
    let offs: Vec<P> = vec![(0.0, 0.0), (1e10 + 1.0, -7.0), (-4503599627370001.0, 4503599627370001.0)];
    k.family("points against segments", pow(n * n, 3) * offs.len() as u64, |i, x| {
        let mut d = Dec(i);
        let mut g = || { let k = d.take(n * n); ((k % n) as i64, (k / n) as i64) };
        let (p, a, b) = (g(), g(), g());
        let (ox, oy) = *d.of(&offs);
        let f = |p: I| cf((p.0 as f64 + ox, p.1 as f64 + oy));
        let want = on_seg(p, a, b);
        let got = PointLocation::is_on_segment(&f(p), &f(a), &f(b));
        x.t(1);
        x.note(|| format!("{:?} on {:?}{:?} -> {}", p, a, b, want));
        ensure!(got == want, "is_on_segment({:?},{:?},{:?}) offset {:?} = {} not {}", p, a, b, (ox, oy), got, want);
        Ok(())
    });
    k.finish()
}

/// rings (without closing point) of up to 48 vertices, not nested in one another's special cases
fn long_rings() -> Vec<Vec<I>> {
    let mut v: Vec<Vec<I>> = vec![];
    // comb with teeth
    let mut r = vec![(0, 0), (24, 0)];
    for k in (0..12).rev() { r.push((2 * k + 1, 6)); r.push((2 * k, 2)); }
    v.push(r);
    // comb with flat teeth (horizontal runs at several heights)
    let mut r = vec![(0, -2), (32, -2)];
    for k in (0..8).rev() { r.extend([(4 * k + 4, 1), (4 * k + 3, 1), (4 * k + 3, 5), (4 * k + 1, 5), (4 * k + 1, 1)]); }
    v.push(r);
    // rectangular spiral
    let mut r: Vec<I> = vec![];
    for k in 0..6i64 { r.extend([(2 * k, 2 * k), (24 - 2 * k, 2 * k), (24 - 2 * k, 24 - 2 * k), (2 * k, 24 - 2 * k)]); }
    let mut b: Vec<I> = r.iter().map(|p| (p.0 + 1, p.1 + 1)).collect();
    b.reverse();
    r.extend(b);
    v.push(r);
    // star polygon crossing itself
    let mut r = vec![];
    for k in 0..20i64 { let t = (k * 7) % 20; r.push(((t * t) % 23, (t * 5) % 19)); }
    v.push(r);
    // zigzag with repeated vertices and collinear runs
    let mut r = vec![];
    for k in 0..15i64 { r.push((k, k % 3)); if k % 2 == 0 { r.push((k, k % 3)); } }
    for k in (0..15i64).rev() { r.push((k, 7)); }
    v.push(r);
    // diamond with subdivided edges
    let mut r = vec![];
    for k in 0..8i64 { r.push((k, -8 + k)); }
    for k in 0..8i64 { r.push((8 - k, k)); }
    for k in 0..8i64 { r.push((-k, 8 - k)); }
    for k in 0..8i64 { r.push((-8 + k, -k)); }
    v.push(r);
    v
}
