// P12 Coordinate sequences behave like plain lists of coordinates
use geos_rs::verif::*;
use geosmc::{ensure, mc::*, num::{same, ulp}};
type Rows = Vec<Vec<f64>>;
const LAY: [(i32, i32); 4] = [(2, 0), (3, 0), (3, 1), (4, 1)];

#[derive(Clone, Debug)]
struct M { d: i32, m: i32, r: Rows }
impl M {
    fn has_z(&self) -> bool { self.d - self.m > 2 }
    fn has_m(&self) -> bool { self.m > 0 }
    fn z(&self, i: usize) -> f64 { if self.has_z() { self.r[i][2] } else { f64::NAN } }
    fn mm(&self, i: usize) -> f64 { if self.has_m() { self.r[i][(self.d - self.m) as usize] } else { f64::NAN } }
    fn coord(&self, i: usize) -> Coordinate { let r = &self.r[i]; let mut c = Coordinate::new_xy(r[0], r[1]); c.z = self.z(i); c.m = self.mm(i); c }
    fn coords(&self) -> Vec<Coordinate> { (0..self.r.len()).map(|i| self.coord(i)).collect() }
    fn is_ring(&self) -> bool { let n = self.r.len(); n == 0 || (n > 3 && self.r[0][..2] == self.r[n - 1][..2]) }
    fn min(&self, a: usize, b: usize) -> usize { let mut k = a; for i in a..=b { if (self.r[i][0], self.r[i][1]) < (self.r[k][0], self.r[k][1]) { k = i; } } k }
    fn index(&self, x: f64, y: f64) -> i32 { self.r.iter().position(|r| r[0] == x && r[1] == y).map(|v| v as i32).unwrap_or(-1) }
    fn scroll(&mut self, i: usize, ring: bool) {
        if i == 0 { return; }
        let n = self.r.len();
        if ring { self.r.truncate(n - 1); let k = i % (n - 1); self.r.rotate_left(k); self.r.push(self.r[0].clone()); } else { self.r.rotate_left(i); }
    }
    fn closed(&self, size: usize) -> M { let mut s = self.clone(); while s.r.len() < size { s.r.push(self.r[0].clone()); } s }
    fn valid_ring(&self) -> M { let n = self.r.len(); if n == 0 { self.clone() } else if n <= 3 { self.closed(4) } else if self.is_ring() { self.clone() } else { self.closed(n + 1) } }
    fn extend(&self, size: usize) -> M { let mut s = self.clone(); if let Some(l) = self.r.last() { while s.r.len() < size { s.r.push(l.clone()); } } s }
}

trait Sq: Clone {
    const NAME: &'static str;
    fn build(m: &M) -> Self;
    fn check(&self, m: &M) -> Res;
    fn set(&mut self, i: usize, d: i32, v: f64);
    fn reverse(&mut self);
    fn swap(&mut self, i: usize, j: usize);
    fn copy_in(src: &Self, a: usize, dst: &mut Self, b: usize, n: usize);
    fn copy_one(src: &Self, a: usize, dst: &mut Self, b: usize);
    fn is_ring(&self) -> bool;
    fn valid_ring(&self) -> Self;
    fn closed(&self, n: usize) -> Self;
    fn extend(&self, n: usize) -> Self;
    fn equal(a: &Self, b: &Self) -> bool;
    fn min_c(&self) -> Option<Coordinate>;
    fn min_i(&self) -> usize;
    fn min_range(&self, a: usize, b: usize) -> usize;
    fn scroll_c(&mut self, c: &Coordinate);
    fn scroll_i(&mut self, i: usize);
    fn scroll_ring(&mut self, i: usize, ring: bool);
    fn index(&self, c: &Coordinate) -> i32;
    fn dup(&self) -> Self;
    /// a new sequence of n coordinates with whatever default ordinates
    fn sized(n: usize, d: i32, m: i32) -> Self;
}
fn eqc(a: &Coordinate, b: &Coordinate) -> bool { same(a.x, b.x) && same(a.y, b.y) && same(a.z, b.z) && same(a.m, b.m) }
fn sc(c: &Coordinate) -> String { format!("({},{},{},{})", c.x, c.y, c.z, c.m) }
fn boxed(m: &M) -> Option<[f64; 4]> {
    if m.r.is_empty() || m.r.iter().any(|r| r[0].is_nan() || r[1].is_nan()) { return None; }
    Some(m.r.iter().fold([f64::INFINITY, -f64::INFINITY, f64::INFINITY, -f64::INFINITY], |b, r| [b[0].min(r[0]), b[1].max(r[0]), b[2].min(r[1]), b[3].max(r[1])]))
}
fn env_ok(e: &Envelope, m: &M, with: Option<(f64, f64)>) -> Res {
    if m.r.iter().any(|r| r[0].is_nan() || r[1].is_nan()) { return Ok(()); }
    let mut b = boxed(m);
    if let Some((x, y)) = with { let a = b.unwrap_or([x, x, y, y]); b = Some([a[0].min(x), a[1].max(x), a[2].min(y), a[3].max(y)]); }
    match b {
        None => { ensure!(e.is_null(), "envelope of an empty sequence is not null"); }
        Some(b) => { ensure!(!e.is_null() && [e.get_min_x(), e.get_max_x(), e.get_min_y(), e.get_max_y()] == b, "envelope {} is not {:?}", e, b); }
    }
    Ok(())
}
impl Sq for CoordinateArraySequence {
    const NAME: &'static str = "array";
    fn build(m: &M) -> Self { CoordinateArraySequence::new_with_coordinates_dimension_measures(m.coords(), m.d, m.m) }
    fn check(&self, m: &M) -> Res {
        ensure!(self.size() == m.r.len() && self.get_dimension() == m.d && self.get_measures() == m.m && self.has_z() == m.has_z() && self.has_m() == m.has_m(),
            "size {} dimension {} measures {} z {} m {} but the model {:?}", self.size(), self.get_dimension(), self.get_measures(), self.has_z(), self.has_m(), m);
        let arr = self.to_coordinate_array();
        ensure!(arr.len() == m.r.len(), "array view has {} coordinates, model {:?}", arr.len(), m);
        for i in 0..m.r.len() {
            for d in 0..m.d { ensure!(same(self.get_ordinate(i, d), m.r[i][d as usize]), "ordinate {} of {} = {} but the model {:?}", d, i, self.get_ordinate(i, d), m); }
            let w = m.coord(i);
            ensure!(same(self.get_x(i), w.x) && same(self.get_y(i), w.y) && same(self.get_z(i), w.z) && same(self.get_m(i), w.m), "x y z m of {} = {} {} {} {} but the model {:?}", i, self.get_x(i), self.get_y(i), self.get_z(i), self.get_m(i), m);
            let mut o = Coordinate::new_xyzm(-5.0, -6.0, -7.0, -8.0);
            self.get_coordinate_index_coordinate(i, &mut o);
            ensure!(same(o.x, w.x) && same(o.y, w.y) && (!m.has_z() || same(o.z, w.z)), "coordinate {} read into place = {} but the model {:?}", i, sc(&o), m);
            for (nm, g) in [("index", self.get_coordinate_index(i)), ("copy", self.get_coordinate_copy(i)), ("array", arr[i])] {
                ensure!(same(g.x, w.x) && same(g.y, w.y) && (!m.has_z() || same(g.z, w.z)) && (!m.has_m() || same(g.m, w.m)), "coordinate {} by {} = {} but the model {:?}", i, nm, sc(&g), m);
            }
        }
        let mut e = Envelope::default();
        self.expand_envelope(&mut e);
        env_ok(&e, m, None)?;
        let mut e = Envelope::new_xy(2.0, 2.0, -3.0, -3.0);
        self.expand_envelope(&mut e);
        env_ok(&e, m, Some((2.0, -3.0)))
    }
    fn set(&mut self, i: usize, d: i32, v: f64) { self.set_ordinate(i, d, v) }
    fn reverse(&mut self) { CoordinateArraySequences::reverse(self) }
    fn swap(&mut self, i: usize, j: usize) { CoordinateArraySequences::swap(self, i, j) }
    fn copy_in(src: &Self, a: usize, dst: &mut Self, b: usize, n: usize) { CoordinateArraySequences::copy(src, a, dst, b, n) }
    fn copy_one(src: &Self, a: usize, dst: &mut Self, b: usize) { CoordinateArraySequences::copy_coord(src, a, dst, b) }
    fn is_ring(&self) -> bool { CoordinateArraySequences::is_ring(self) }
    fn valid_ring(&self) -> Self { CoordinateArraySequences::ensure_valid_ring(self) }
    fn closed(&self, n: usize) -> Self { CoordinateArraySequences::create_closed_ring(self, n) }
    fn extend(&self, n: usize) -> Self { CoordinateArraySequences::extend(self, n) }
    fn equal(a: &Self, b: &Self) -> bool { CoordinateArraySequences::is_equal(a, b) }
    fn min_c(&self) -> Option<Coordinate> { CoordinateArraySequences::min_coordinate(self) }
    fn min_i(&self) -> usize { CoordinateArraySequences::min_coordinate_index_sequence(self) }
    fn min_range(&self, a: usize, b: usize) -> usize { CoordinateArraySequences::min_coordinate_index_sequence_from_to(self, a, b) }
    fn scroll_c(&mut self, c: &Coordinate) { CoordinateArraySequences::scroll_coordinate(self, c) }
    fn scroll_i(&mut self, i: usize) { CoordinateArraySequences::scroll_coordinate_index(self, i) }
    fn scroll_ring(&mut self, i: usize, ring: bool) { CoordinateArraySequences::scroll_coordinate_index_ensure_ring(self, i, ring) }
    fn index(&self, c: &Coordinate) -> i32 { CoordinateArraySequences::index_of(c, self) }
    fn dup(&self) -> Self { self.copy() }
    fn sized(n: usize, d: i32, m: i32) -> Self { CoordinateArraySequence::new_with_size_dimension_measures(n, d, m) }
}
impl Sq for PackedCoordinateSequenceDouble {
    const NAME: &'static str = "packed";
    fn build(m: &M) -> Self { PackedCoordinateSequenceDouble::new_f64_with_coordinates_dimension_measures(&m.r.concat(), m.d, m.m) }
    fn check(&self, m: &M) -> Res {
        ensure!(self.size() == m.r.len() && self.get_dimension() == m.d && self.get_measures() == m.m, "size {} dimension {} measures {} but the model {:?}", self.size(), self.get_dimension(), self.get_measures(), m);
        let (arr, raw, flat) = (self.to_coordinate_array(), self.get_raw_coordinates(), m.r.concat());
        ensure!(arr.len() == m.r.len() && raw.len() == flat.len() && raw.iter().zip(&flat).all(|(a, b)| same(*a, *b)), "raw ordinates {:?} but the model {:?}", raw, m);
        for i in 0..m.r.len() {
            for d in 0..m.d { ensure!(same(self.get_ordinate(i, d), m.r[i][d as usize]), "ordinate {} of {} = {} but the model {:?}", d, i, self.get_ordinate(i, d), m); }
            let w = m.coord(i);
            for (nm, g) in [("index", self.get_coordinate_by_index(i)), ("internal", self.get_coordinate_internal(i)), ("array", arr[i])] {
                ensure!(eqc(&g, &w), "coordinate {} by {} = {} but the model {:?}", i, nm, sc(&g), m);
            }
        }
        env_ok(&self.expand_envelope(&Envelope::default()), m, None)?;
        env_ok(&self.expand_envelope(&Envelope::new_xy(2.0, 2.0, -3.0, -3.0)), m, Some((2.0, -3.0)))
    }
    fn set(&mut self, i: usize, d: i32, v: f64) { self.set_ordinate(i, d, v) }
    fn reverse(&mut self) { PackedCoordinateSequences::reverse(self) }
    fn swap(&mut self, i: usize, j: usize) { PackedCoordinateSequences::swap(self, i, j) }
    fn copy_in(src: &Self, a: usize, dst: &mut Self, b: usize, n: usize) { PackedCoordinateSequences::copy(src, a, dst, b, n) }
    fn copy_one(src: &Self, a: usize, dst: &mut Self, b: usize) { PackedCoordinateSequences::copy_coord(src, a, dst, b) }
    fn is_ring(&self) -> bool { PackedCoordinateSequences::is_ring(self) }
    fn valid_ring(&self) -> Self { PackedCoordinateSequences::ensure_valid_ring(self) }
    fn closed(&self, n: usize) -> Self { PackedCoordinateSequences::create_closed_ring(self, n) }
    fn extend(&self, n: usize) -> Self { PackedCoordinateSequences::extend(self, n) }
    fn equal(a: &Self, b: &Self) -> bool { PackedCoordinateSequences::is_equal(a, b) }
    fn min_c(&self) -> Option<Coordinate> { PackedCoordinateSequences::min_coordinate(self) }
    fn min_i(&self) -> usize { PackedCoordinateSequences::min_coordinate_index_sequence(self) }
    fn min_range(&self, a: usize, b: usize) -> usize { PackedCoordinateSequences::min_coordinate_index_sequence_from_to(self, a, b) }
    fn scroll_c(&mut self, c: &Coordinate) { PackedCoordinateSequences::scroll_coordinate(self, c) }
    fn scroll_i(&mut self, i: usize) { PackedCoordinateSequences::scroll_coordinate_index(self, i) }
    fn scroll_ring(&mut self, i: usize, ring: bool) { PackedCoordinateSequences::scroll_coordinate_index_ensure_ring(self, i, ring) }
    fn index(&self, c: &Coordinate) -> i32 { PackedCoordinateSequences::index_of(c, self) }
    fn dup(&self) -> Self { self.copy() }
    fn sized(n: usize, d: i32, m: i32) -> Self { PackedCoordinateSequenceDouble::new_with_size_dimension_measures(n, d, m) }
}
const SYM: [(f64, f64); 5] = [(0.0, 0.0), (0.0, 1.0), (1.0, -0.0), (1.0, 1.0), (-1.0, 2.0)];
/// rows with unique Z and M tags per position
fn rows(sy: &[usize], l: (i32, i32)) -> M {
    let r = sy.iter().enumerate().map(|(k, s)| {
        let mut v = vec![SYM[*s].0, SYM[*s].1];
        if l.0 - l.1 > 2 { v.push(10.0 + k as f64); }
        if l.1 > 0 { v.push(if k == 1 { f64::NAN } else { 100.0 + k as f64 }); }
        v
    }).collect();
    M { d: l.0, m: l.1, r }
}
fn ck<S: Sq>(s: &S, m: &M, what: &dyn Fn() -> String) -> Res { s.check(m).map_err(|e| format!("{} sequence, {}: {}", S::NAME, what(), e)) }

/// every operation once on one sequence
fn single<S: Sq>(m: &M, x: &mut Ctx) -> Res {
    let s = S::build(m);
    let n = m.r.len();
    let w = |o: String| { let m = m.clone(); move || format!("{} on {:?}", o, m) };
    ck(&s, m, &w("build".into()))?;
    let mut t = s.clone();
    t.reverse();
    let mut r = m.clone();
    r.r.reverse();
    ck(&t, &r, &w("reverse".into()))?;
    ensure!(s.is_ring() == m.is_ring(), "{} is_ring of {:?} = {}", S::NAME, m, s.is_ring());
    ck(&s.valid_ring(), &m.valid_ring(), &w("ensure_valid_ring".into()))?;
    for e in 0..3 {
        if n > 0 { ck(&s.closed(n + e), &m.closed(n + e), &w(format!("create_closed_ring {}", n + e)))?; ck(&s.extend(n + e), &m.extend(n + e), &w(format!("extend {}", n + e)))?; }
    }
    if n == 0 { ensure!(s.min_c().is_none(), "minimum of an empty sequence"); return Ok(()); }
    let g = s.min_c().ok_or("no minimum")?;
    let k = m.min(0, n - 1);
    let wc = m.coord(k);
    ensure!(same(g.x, wc.x) && same(g.y, wc.y) && (!m.has_z() || same(g.z, wc.z)) && (!m.has_m() || same(g.m, wc.m)), "{} minimum of {:?} = {}", S::NAME, m, sc(&g));
    ensure!(s.min_i() == k, "{} minimum index of {:?} = {}", S::NAME, m, s.min_i());
    for a in 0..n { for b in a..n { ensure!(s.min_range(a, b) == m.min(a, b), "{} minimum index {}..={} of {:?} = {}", S::NAME, a, b, m, s.min_range(a, b)); } }
    for p in SYM.iter().chain(&[(7.0, 7.0)]) {
        let c = Coordinate::new_xyzm(p.0, p.1, 55.0, 66.0);
        let i = m.index(p.0, p.1);
        ensure!(s.index(&c) == i, "{} index of {:?} in {:?} = {}", S::NAME, p, m, s.index(&c));
        let mut t = s.clone();
        t.scroll_c(&c);
        let mut r = m.clone();
        if i > 0 { r.scroll(i as usize, m.is_ring()); }
        ck(&t, &r, &w(format!("scroll to {:?}", p)))?;
    }
    for i in 0..n {
        for ring in [false, true] {
            if ring && !m.is_ring() { continue; }
            let (mut t, mut r) = (s.clone(), m.clone());
            t.scroll_ring(i, ring);
            r.scroll(i, ring);
            ck(&t, &r, &w(format!("scroll to index {} ring {}", i, ring)))?;
        }
        let (mut t, mut r) = (s.clone(), m.clone());
        t.scroll_i(i);
        r.scroll(i, m.is_ring());
        ck(&t, &r, &w(format!("scroll to index {}", i)))?;
        for j in 0..n {
            let (mut t, mut r) = (s.clone(), m.clone());
            t.swap(i, j);
            r.r.swap(i, j);
            ck(&t, &r, &w(format!("swap {} {}", i, j)))?;
        }
        for d in 0..m.d {
            let (mut t, mut r) = (s.clone(), m.clone());
            let c = s.dup();
            t.set(i, d, -42.5);
            r.r[i][d as usize] = -42.5;
            ck(&t, &r, &w(format!("set ordinate {} of {}", d, i)))?;
            ck(&c, m, &w("copy after the original changed".into()))?;
            ensure!(!S::equal(&t, &s) && !S::equal(&s, &t), "{} equality misses ordinate {} of {} in {:?}", S::NAME, d, i, m);
            let mut t = s.dup();
            t.set(i, d, f64::NAN);
            ck(&s, m, &w("original after its copy changed".into()))?;
            ensure!(S::equal(&t, &s) == m.r[i][d as usize].is_nan(), "{} equality with NaN at ordinate {} of {} in {:?}", S::NAME, d, i, m);
            ensure!(S::equal(&t, &t.dup()), "{} sequence with NaN is not equal to its copy", S::NAME);
        }
    }
    ensure!(S::equal(&s, &s.dup()), "{} {:?} is not equal to its copy", S::NAME, m);
    ensure!(!S::equal(&s, &s.extend(n + 1)) && !S::equal(&s.extend(n + 1), &s), "{} {:?} equals a longer sequence", S::NAME, m);
    // a longer array view is not shared
    x.t((20 + n * n * 3 + n * 8) as u64);
    Ok(())
}

#[derive(Clone, Debug)]
enum Op { Set(usize, i32, f64), Rev, Swap(usize, usize), Scroll(usize), ScrollC(usize), CopyIn(usize, usize, usize), CopyOne(usize, usize), Dup, Ring, Extend, Close }
fn history<S: Sq>(h: &[&Op], m0: &M, src: &M, x: &mut Ctx) -> Res {
    let (mut s, mut m) = (S::build(m0), m0.clone());
    let from = S::build(src);
    let orig = s.dup();
    for o in h {
        match o {
            Op::Set(i, d, v) => { let (i, d) = (i % m.r.len(), d % m.d); s.set(i, d, *v); m.r[i][d as usize] = *v; }
            Op::Rev => { s.reverse(); m.r.reverse(); }
            Op::Swap(i, j) => { let n = m.r.len(); s.swap(i % n, j % n); m.r.swap(i % n, j % n); }
            Op::Scroll(i) => { let i = i % m.r.len(); let r = m.is_ring(); s.scroll_i(i); m.scroll(i, r); }
            Op::ScrollC(k) => { let p = SYM[*k]; let i = m.index(p.0, p.1); let r = m.is_ring(); s.scroll_c(&Coordinate::new_xy(p.0, p.1)); if i > 0 { m.scroll(i as usize, r); } }
            Op::CopyIn(a, b, n) => { let n = (*n).min(src.r.len() - a).min(m.r.len() - b); S::copy_in(&from, *a, &mut s, *b, n); let w = m.d.min(src.d) as usize; for k in 0..n { let v = src.r[a + k][..w].to_vec(); m.r[b + k][..w].copy_from_slice(&v); } }
            Op::CopyOne(a, b) => { S::copy_one(&from, *a, &mut s, *b); let w = m.d.min(src.d) as usize; let v = src.r[*a][..w].to_vec(); m.r[*b][..w].copy_from_slice(&v); }
            Op::Dup => { let t = s.dup(); s.set(0, 0, 9e9); s = t; }
            Op::Ring => { s = s.valid_ring(); m = m.valid_ring(); }
            Op::Extend => { let n = m.r.len() + 1; s = s.extend(n); m = m.extend(n); }
            Op::Close => { let n = m.r.len() + 1; s = s.closed(n); m = m.closed(n); }
        }
        x.t(1);
        ck(&s, &m, &|| format!("history {:?} on {:?}", h, m0))?;
    }
    ck(&orig, m0, &|| format!("original after history {:?}", h))?;
    ck(&from, src, &|| format!("source after history {:?}", h))
}

/// a sequence of n rows that all differ, its minimum and a doubled row at position p; closed if wanted
fn long_rows(n: usize, p: usize, l: (i32, i32), ring: bool) -> M {
    let mut m = M { d: l.0, m: l.1, r: (0..n).map(|k| {
        let mut v = vec![((k * 7) % 11) as f64 + 1.0, k as f64];
        if k == p { v[0] = 0.5; }
        if l.0 - l.1 > 2 { v.push(1000.1 + k as f64); }
        if l.1 > 0 { v.push(-1000.7 - k as f64); }
        v
    }).collect() };
    if ring && n > 3 { m.r[n - 1] = m.r[0].clone(); }
    m
}
fn long_ops<S: Sq>(m: &M, p: usize, x: &mut Ctx) -> Res {
    let s = S::build(m);
    let n = m.r.len();
    let w = |o: String| move || format!("{} on a sequence of {} with its minimum at {}", o, n, p);
    let what = |s: &str| format!("{} {} of {} (minimum at {}, layout {} {})", S::NAME, s, n, p, m.d, m.m);
    ck(&s, m, &w("build".into()))?;
    let k = m.min(0, n - 1);
    ensure!(s.min_i() == k, "{} = {} not {}", what("minimum index"), s.min_i(), k);
    ensure!(s.min_c().map(|g| g.x == m.r[k][0] && g.y == m.r[k][1]) == Some(true), "{}", what("minimum"));
    for (a, b) in [(p, n - 1), (0, p), (p, p), (p / 2, (n + p) / 2 - (n + p > 1) as usize)] { if a <= b && b < n { ensure!(s.min_range(a, b) == m.min(a, b), "{} {}..={} = {} not {}", what("minimum index"), a, b, s.min_range(a, b), m.min(a, b)); } }
    ensure!(s.is_ring() == m.is_ring(), "{} = {}", what("ring test"), s.is_ring());
    let c = Coordinate::new_xyzm(m.r[p][0], m.r[p][1], 55.0, 66.0);
    ensure!(s.index(&c) == m.index(c.x, c.y), "{} = {}", what("search"), s.index(&c));
    let run = |nm: &str, f: &dyn Fn(&mut S), g: &dyn Fn(&mut M)| -> Res { let (mut t, mut r) = (s.dup(), m.clone()); f(&mut t); g(&mut r); ck(&t, &r, &w(nm.to_string())) };
    run("reverse", &|t| t.reverse(), &|r| r.r.reverse())?;
    run("scroll", &|t| t.scroll_i(p), &|r| { let g = r.is_ring(); r.scroll(p, g) })?;
    run("scroll to coordinate", &|t| t.scroll_c(&c), &|r| { let g = r.is_ring(); let i = r.index(c.x, c.y); if i > 0 { r.scroll(i as usize, g) } })?;
    run("scroll without ring", &|t| t.scroll_ring(p, false), &|r| r.scroll(p, false))?;
    run("swap", &|t| t.swap(p, n - 1 - p), &|r| r.r.swap(p, n - 1 - p))?;
    run("swap with the first", &|t| t.swap(0, p), &|r| r.r.swap(0, p))?;
    run("valid ring", &|t| *t = t.valid_ring(), &|r| *r = r.valid_ring())?;
    run("extend", &|t| *t = t.extend(n + p), &|r| *r = r.extend(n + p))?;
    run("close", &|t| *t = t.closed(n + p), &|r| *r = r.closed(n + p))?;
    for d in 0..m.d { run("set", &|t| t.set(p, d, 0.25), &|r| r.r[p][d as usize] = 0.25)?;
        let mut t = s.dup(); t.set(p, d, 0.25); ensure!(!S::equal(&s, &t) && !S::equal(&t, &s), "{} misses ordinate {}", what("equality"), d); }
    ensure!(S::equal(&s, &s.dup()), "{} fails", what("equality with its copy"));
    let mut src = m.clone();
    src.r.reverse();
    for r in src.r.iter_mut() { for v in r.iter_mut() { *v += 0.5; } }
    let from = S::build(&src);
    for (a, b, l) in [(0, p, n - p), (p, 0, n - p), (p, p, n - p), (0, 0, p)] {
        run("block copy", &|t| S::copy_in(&from, a, t, b, l), &|r| for k in 0..l { r.r[b + k] = src.r[a + k].clone(); })?;
    }
    x.t(26 + 3 * m.d as u64);
    ck(&s, m, &w("the original after all that".into()))
}

fn main() {
    let mut k = Check::new("P12");
    k.family("ordinate names", 1, |_, x| {
        x.t(4);
        for (n, v) in [("coordinate", [Coordinate::X, Coordinate::Y, Coordinate::Z, Coordinate::M]), ("array", [CoordinateArraySequence::X, CoordinateArraySequence::Y, CoordinateArraySequence::Z, CoordinateArraySequence::M]),
            ("packed", [PackedCoordinateSequence::X, PackedCoordinateSequence::Y, PackedCoordinateSequence::Z, PackedCoordinateSequence::M]),
            ("packed double", [PackedCoordinateSequenceDouble::X, PackedCoordinateSequenceDouble::Y, PackedCoordinateSequenceDouble::Z, PackedCoordinateSequenceDouble::M])] {
            ensure!(v == [0, 1, 2, 3], "ordinates of the {} sequence are named {:?}", n, v);
        }
        Ok(())
    });
    let n = k.q(5usize, 7);
    k.family("all sequences, every single operation", seqs(4, 0, n) * 4 * 2, |i, x| {
        let mut d = Dec(i);
        let sy = seq(&mut d, 4, 0, n);
        let m = rows(&sy, *d.of(&LAY));
        x.out(if m.is_ring() { "ring" } else { "open" });
        x.note(|| format!("{:?}", m));
        if d.bit() { single::<CoordinateArraySequence>(&m, x) } else { single::<PackedCoordinateSequenceDouble>(&m, x) }
    });
    // equality between layouts compares the common ordinates
    k.family("equality of two sequences", pow(40, 2) * 16, |i, x| {
        let mut d = Dec(i);
        let mut one = || { let v = d.take(40); if v < 4 { vec![v] } else { let v = v - 4; vec![v % 6 % 4, v / 6 % 4, v % 3] } };
        let (a, b) = (one(), one());
        let (la, lb) = (*d.of(&LAY), *d.of(&LAY));
        // an M and a Z in the same place are not comparable
        if (la == (3, 1)) != (lb == (3, 1)) && la.0 > 2 && lb.0 > 2 { return x.skip(); }
        let (p, q) = (rows(&a, la), rows(&b, lb));
        let w = p.r.len() == q.r.len() && p.r.iter().zip(&q.r).all(|(u, v)| u.iter().zip(v).all(|(s, t)| same(*s, *t)));
        x.out(if w { "equal" } else { "different" });
        x.note(|| format!("{:?} {:?} {}", p, q, w));
        x.t(2);
        ensure!(CoordinateArraySequences::is_equal(&CoordinateArraySequence::build(&p), &CoordinateArraySequence::build(&q)) == w, "array equality of {:?} and {:?} is not {}", p, q, w);
        ensure!(PackedCoordinateSequences::is_equal(&PackedCoordinateSequenceDouble::build(&p), &PackedCoordinateSequenceDouble::build(&q)) == w, "packed equality of {:?} and {:?} is not {}", p, q, w);
        Ok(())
    });
    // block copies between layouts
    k.family("block copies", 16 * 2 * 5 * 5 * 6, |i, x| {
        let mut d = Dec(i);
        let (la, lb) = (*d.of(&LAY), *d.of(&LAY));
        if (la == (3, 1)) != (lb == (3, 1)) && la.0 > 2 && lb.0 > 2 { return x.skip(); }
        let packed = d.bit();
        let (a, b, n) = (d.take(5), d.take(5), d.take(6));
        let (src, mut dst) = (rows(&[4, 3, 2, 1, 4], la), rows(&[0, 0, 1, 0, 2], lb));
        if a + n > 5 || b + n > 5 { return x.skip(); }
        x.note(|| format!("{:?}[{}..{}] into {:?} at {}", la, a, a + n, lb, b));
        x.out("copied");
        let h: &[&Op] = &[&Op::CopyIn(a, b, n)];
        if packed { history::<PackedCoordinateSequenceDouble>(h, &dst, &src, x)?; } else { history::<CoordinateArraySequence>(h, &dst, &src, x)?; }
        dst.r.reverse();
        if n > 0 { let h: &[&Op] = &[&Op::CopyOne(a, b)]; if packed { history::<PackedCoordinateSequenceDouble>(h, &dst, &src, x)?; } else { history::<CoordinateArraySequence>(h, &dst, &src, x)?; } }
        Ok(())
    });
    // operation histories
    let mut ops = vec![Op::Rev, Op::Dup, Op::Ring, Op::Extend, Op::Close];
    for i in 0..4 { for d in 0..4 { ops.push(Op::Set(i, d, [5.0, 0.0, f64::NAN, -3.0][(i + d as usize) % 4])); } ops.push(Op::Scroll(i + 1)); ops.push(Op::ScrollC(i)); ops.push(Op::Swap(i, (i * 3 + 1) % 4)); }
    ops.extend([Op::CopyIn(0, 0, 4), Op::CopyIn(1, 0, 3), Op::CopyIn(0, 2, 2), Op::CopyOne(3, 0), Op::CopyOne(0, 1)]);
    // X and Y stay numbers
    for o in ops.iter_mut() { if let Op::Set(_, d, v) = o { if *d < 2 && v.is_nan() { *v = 1.0; } } }
    let l = k.q(3usize, 4);
    let starts: Vec<Vec<usize>> = vec![vec![0, 1, 2, 0], vec![2, 1, 0, 3], vec![1, 1, 3, 1, 1], vec![0, 2, 4, 3, 0]];
    k.family("operation histories", pow(ops.len(), l) * 4 * 4 * 2, |i, x| {
        let mut d = Dec(i);
        let h: Vec<&Op> = (0..l).map(|_| d.of(&ops)).collect();
        let lay = *d.of(&LAY);
        let m = rows(d.of(&starts), lay);
        let src = rows(&[3, 4, 0, 1], lay);
        x.note(|| format!("{:?} on {:?}", h, m));
        x.out("history");
        if d.bit() { history::<CoordinateArraySequence>(&h, &m, &src, x) } else { history::<PackedCoordinateSequenceDouble>(&h, &m, &src, x) }
    });
    // construction from coordinates of any layout (mixed ones included) and by size
    let z = |c: usize, p: usize| -> Coordinate { let (a, b) = SYM[(p + c) % 5]; match c { 0 => Coordinate::new_xy(a, b), 1 => Coordinate::new_xyz(a, b, 10.0 + p as f64), 2 => Coordinate::new_xym(a, b, 20.0 + p as f64), _ => Coordinate::new_xyzm(a, b, 30.0 + p as f64, 40.0 + p as f64) } };
    let pick = |c: &Coordinate, d: i32, m: i32| -> Vec<f64> { let mut v = vec![c.x, c.y]; if d - m > 2 { v.push(c.z); } if m > 0 { v.push(c.m); } v };
    let n = k.q(4usize, 6);
    k.family("construction from coordinates", seqs(4, 0, n), |i, x| {
        let mut d = Dec(i);
        let sy = seq(&mut d, 4, 0, n);
        let v: Vec<Coordinate> = sy.iter().enumerate().map(|(p, c)| z(*c, p)).collect();
        x.note(|| format!("layouts {:?}", sy));
        x.out("built");
        let (dim, mea) = if sy.is_empty() { (3, 0) } else { (sy.iter().map(|s| LAY[*s].0).max().unwrap(), sy.iter().map(|s| LAY[*s].1).max().unwrap()) };
        // XYZ and XYM in one array have no common layout
        let mixed = dim == 3 && sy.contains(&1) && sy.contains(&2);
        let model = |d: i32, m: i32| M { d, m, r: v.iter().map(|c| pick(c, d, m)).collect() };
        if !mixed {
            let m = model(dim, mea);
            let w = || format!("built from layouts {:?}", sy);
            let mut orig = v.clone();
            let a = CoordinateArraySequence::new_with_coordinates(&orig);
            for c in orig.iter_mut() { c.x = 99.0; }
            ck(&a, &m, &w)?;
            ck(&CoordinateArraySequenceFactory::create_from_coordinates(&v), &m, &w)?;
            ck(&CoordinateArraySequenceFactory::create_from_coordinate_array_sequence(&a), &m, &w)?;
            ck(&CoordinateArraySequence::new_from_coordinate_array_sequence(&a), &m, &w)?;
            ck(&CoordinateArraySequence::new_with_coordinates_dimension(v.clone(), dim), &m, &w)?;
            ck(&CoordinateArraySequence::new_with_coordinates_dimension_measures(v.clone(), dim, mea), &m, &w)?;
            x.t(6);
        }
        // packed sequences project every coordinate onto the requested layout
        for (d, m) in LAY {
            let md = model(d, m);
            let w = || format!("packed as {:?} from layouts {:?}", (d, m), sy);
            ck(&PackedCoordinateSequenceDouble::new_coordinates_with_dimension_measures(&v, d, m), &md, &w)?;
            let flat = md.r.concat();
            ck(&PackedCoordinateSequenceDouble::new_f64_with_coordinates_dimension_measures(&flat, d, m), &md, &w)?;
            ck(&PackedCoordinateSequenceFactory::create_double_coordinate_dimension_measures(&flat, d, m), &md, &w)?;
            x.t(3);
        }
        for (d, m) in [(2, 0), (3, 0), (4, 1)] { ck(&PackedCoordinateSequenceDouble::new_coordinates_with_dimension(&v, d), &model(d, m), &|| format!("packed with dimension {} from layouts {:?}", d, sy))?; }
        for d in [2, 3] { ck(&PackedCoordinateSequenceFactory::create_double_coordinates_dimension(&model(d, 0).r.concat(), d), &model(d, 0), &|| format!("packed ordinates with dimension {}", d))?; }
        ck(&PackedCoordinateSequenceDouble::new_with_coordinates(&v), &model(3, 0), &|| format!("packed from layouts {:?}", sy))?;
        let (d, m) = sy.first().map(|s| LAY[*s]).unwrap_or((3, 0));
        ck(&PackedCoordinateSequenceFactory::create_double_from_coordinates(&v), &model(d, m), &|| format!("packed by factory from layouts {:?}", sy))?;
        x.t(7);
        // a dimension of the caller's choosing is kept; the measures are those of the coordinates
        for d in 2..=4 {
            let s = CoordinateArraySequence::new_with_coordinates_dimension(v.clone(), d);
            ensure!((s.size(), s.get_dimension(), s.get_measures()) == (v.len(), d, mea), "built with dimension {} from layouts {:?}: size {} dimension {} measures {}", d, sy, s.size(), s.get_dimension(), s.get_measures());
            x.t(1);
        }
        // four ordinates without a measure still hold everything a coordinate has
        let s = PackedCoordinateSequenceDouble::new_coordinates_with_dimension_measures(&v, 4, 0);
        ensure!(s.size() == v.len() && s.get_dimension() == 4 && s.get_measures() == 0, "packed as (4,0) from layouts {:?}", sy);
        for (j, c) in v.iter().enumerate() {
            ensure!((0..4).all(|o| same(s.get_ordinate(j, o), [c.x, c.y, c.z, c.m][o as usize])), "ordinates of {} packed as (4,0) from layouts {:?}", j, sy);
            ensure!(eqc(&s.get_coordinate_by_index(j), c), "coordinate {} packed as (4,0) from layouts {:?} = {}", j, sy, sc(&s.get_coordinate_by_index(j)));
            x.t(2);
        }
        Ok(())
    });
    k.family("construction by size", 5 * 4 * 2, |i, x| {
        let mut d = Dec(i);
        let n = d.take(5);
        let (dm, ms) = *d.of(&LAY);
        x.note(|| format!("{} coordinates of layout {:?}", n, (dm, ms)));
        x.out("built");
        // the default ordinates are the implementation's; every write to them is exact
        fn fill<S: Sq>(mut s: S, read: impl Fn(&S, usize, i32) -> f64, n: usize, d: i32, m: i32, x: &mut Ctx) -> Res {
            let mut md = M { d, m, r: (0..n).map(|i| (0..d).map(|k| read(&s, i, k)).collect()).collect() };
            ck(&s, &md, &|| "by size".to_string())?;
            for i in 0..n { for k in 0..d { let v = (i * 10) as f64 + k as f64 + 0.5; s.set(i, k, v); md.r[i][k as usize] = v; ck(&s, &md, &|| format!("by size, filled up to {} {}", i, k))?; x.t(1); } }
            Ok(())
        }
        let ro = |s: &CoordinateArraySequence, i: usize, k: i32| s.get_ordinate(i, k);
        let rp = |s: &PackedCoordinateSequenceDouble, i: usize, k: i32| s.get_ordinate(i, k);
        fill(CoordinateArraySequence::new_with_size_dimension_measures(n, dm, ms), ro, n, dm, ms, x)?;
        fill(CoordinateArraySequenceFactory::create_with_size_dimension_measures(n, dm, ms), ro, n, dm, ms, x)?;
        fill(PackedCoordinateSequenceDouble::new_with_size_dimension_measures(n, dm, ms), rp, n, dm, ms, x)?;
        fill(PackedCoordinateSequenceFactory::create_with_size_dimension_measures(n, dm, ms), rp, n, dm, ms, x)?;
        if ms == 0 {
            fill(CoordinateArraySequence::new_with_size_dimension(n, dm), ro, n, dm, 0, x)?;
            fill(CoordinateArraySequenceFactory::create_with_size_dimension(n, dm), ro, n, dm, 0, x)?;
            fill(PackedCoordinateSequenceFactory::create_with_size_dimension(n, dm), rp, n, dm, 0, x)?;
        }
        if (dm, ms) == (3, 0) { fill(CoordinateArraySequence::new_with_size(n), ro, n, 3, 0, x)?; }
        if (dm, ms) == (4, 1) { fill(PackedCoordinateSequenceFactory::create_with_size_dimension(n, 4), rp, n, 4, 1, x)?; }
        // unreasonable requests are clipped to a supported layout
        for (rd, rm, wd, wm) in [(1, 0, 2, 0), (7, 0, 3, 0), (9, 3, 4, 1), (3, 2, 3, 1), (0, 0, 2, 0)] {
            let s = CoordinateArraySequenceFactory::create_with_size_dimension_measures(n, rd, rm);
            ensure!((s.get_dimension(), s.get_measures(), s.size()) == (wd, wm, n), "factory layout for ({},{}) = ({},{})", rd, rm, s.get_dimension(), s.get_measures());
        }
        for (rd, wd) in [(-1, 2), (2, 2), (3, 3), (4, 3), (9, 3)] { ensure!(CoordinateArraySequenceFactory::create_with_size_dimension(n, rd).get_dimension() == wd, "factory dimension for {}", rd); }
        // the coordinate-backed packed form starts empty
        let p = PackedCoordinateSequence::new_with_dimension_measures(dm, ms).ok_or("no packed sequence")?;
        ensure!(p.size() == 0 && p.get_dimension() == dm && p.get_measures() == ms && p.has_z() == (dm - ms > 2) && p.has_m() == (ms > 0) && p.to_coordinate_array().is_empty(), "empty packed sequence of layout {:?}", (dm, ms));
        ensure!(PackedCoordinateSequence::new_with_dimension_measures(ms + 1, ms).is_none(), "packed sequence with one spatial dimension");
        ensure!(p.copy().size() == 0 && PackedCoordinateSequenceFactory::create_double_from_coordinate_sequence(&p).size() == 0, "copy of an empty packed sequence");
        ensure!(PackedCoordinateSequenceFactory::create_double_from_coordinate_sequence(&p).get_measures() == ms, "measures of a converted packed sequence");
        x.t(14);
        let _ = CoordinateArraySequence::sized(n, dm, ms);
        Ok(())
    });
    // sequences of every length, something special at every position
    let n = k.q(66usize, 200);
    k.family("long sequences", (n * n) as u64 * 4 * 2 * 2, |i, x| {
        let mut d = Dec(i);
        let (len, p) = (d.take(n) + 1, d.take(n));
        let lay = *d.of(&LAY);
        let (ring, packed) = (d.bit(), d.bit());
        if p >= len || (ring && len < 4) { return x.skip(); }
        let m = long_rows(len, p, lay, ring);
        x.note(|| format!("{} rows, special row {}, layout {:?} ring {}", len, p, lay, ring));
        x.out(if ring { "ring" } else { "open" });
        if packed { long_ops::<PackedCoordinateSequenceDouble>(&m, p, x) } else { long_ops::<CoordinateArraySequence>(&m, p, x) }
    });
    // a few much longer ones
    let sizes: Vec<usize> = vec![127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4096, 4097];
    k.family("very long sequences", (sizes.len() * 4 * 2 * 2 * 8) as u64, |i, x| {
        let mut d = Dec(i);
        let len = *d.of(&sizes);
        let lay = *d.of(&LAY);
        let (ring, packed) = (d.bit(), d.bit());
        let p = [0, 1, len / 2, len - 2, len - 1, len / 3, 126, 64][d.take(8)];
        let m = long_rows(len, p, lay, ring);
        x.note(|| format!("{} rows, special row {}, layout {:?} ring {}", len, p, lay, ring));
        x.out(if ring { "ring" } else { "open" });
        if packed { long_ops::<PackedCoordinateSequenceDouble>(&m, p, x) } else { long_ops::<CoordinateArraySequence>(&m, p, x) }
    });
    let huge: Vec<usize> = vec![32768, 32769, 65536, 65537];
    k.family("huge sequences", (huge.len() * 4 * 2 * 2 * 2) as u64, |i, x| {
        let mut d = Dec(i);
        let len = *d.of(&huge);
        let lay = *d.of(&LAY);
        let (ring, packed, late) = (d.bit(), d.bit(), d.bit());
        let p = if late { len - 2 } else { 257 };
        let m = long_rows(len, p, lay, ring);
        x.note(|| format!("{} rows, special row {}, layout {:?} ring {}", len, p, lay, ring));
        x.out(if ring { "ring" } else { "open" });
        if packed { long_ops::<PackedCoordinateSequenceDouble>(&m, p, x) } else { long_ops::<CoordinateArraySequence>(&m, p, x) }
    });
    k.family("construction from many coordinates", (sizes.len() * 4) as u64, |i, x| {
        let mut d = Dec(i);
        let len = *d.of(&sizes);
        let lay = *d.of(&LAY);
        let m = long_rows(len, len / 2, lay, false);
        let v = m.coords();
        x.note(|| format!("{} rows of layout {:?}", len, lay));
        x.out("built");
        let w = || format!("built from {} coordinates", len);
        let a = CoordinateArraySequence::new_with_coordinates(&v);
        ck(&a, &m, &w)?;
        ck(&CoordinateArraySequenceFactory::create_from_coordinates(&v), &m, &w)?;
        ck(&CoordinateArraySequenceFactory::create_from_coordinate_array_sequence(&a), &m, &w)?;
        ck(&CoordinateArraySequence::new_from_coordinate_array_sequence(&a), &m, &w)?;
        ck(&PackedCoordinateSequenceFactory::create_double_from_coordinates(&v), &m, &w)?;
        x.t(5);
        for (d, me) in LAY {
            let md = M { d, m: me, r: v.iter().map(|c| pick(c, d, me)).collect() };
            ck(&PackedCoordinateSequenceDouble::new_coordinates_with_dimension_measures(&v, d, me), &md, &w)?;
            ck(&PackedCoordinateSequenceFactory::create_double_coordinate_dimension_measures(&md.r.concat(), d, me), &md, &w)?;
            x.t(2);
        }
        Ok(())
    });
    // search, minimum and equality see one last bit, at every scale
    k.family("last bits", 2046 * 3 * 3 * 4, |i, x| {
        let mut d = Dec(i);
        let (dx, dy) = (d.take(3) as i64 - 1, d.take(3) as i64 - 1);
        let neg = d.bit();
        let frac = if d.bit() { 0x999999999999a } else { 0 };
        let v = f64::from_bits((d.take(2046) as u64 + 1) << 52 | frac) * if neg { -1.0 } else { 1.0 };
        let u = (ulp(v, dx), ulp(v, dy));
        let lay = LAY[i as usize % 4];
        let mut m = rows(&[0, 0, 0], lay);
        m.r[0][0] = v; m.r[0][1] = v; m.r[1][0] = u.0; m.r[1][1] = u.1; m.r[2][0] = v; m.r[2][1] = v;
        for (j, w) in [u.0, v, u.1].into_iter().enumerate() { for o in 2..lay.0 as usize { m.r[j][o] = if o == 2 { w } else { -w }; } }
        x.note(|| format!("{:?}", m));
        x.out("last bit");
        fn go<S: Sq>(m: &M, v: f64, u: (f64, f64), x: &mut Ctx) -> Res {
            let s = S::build(m);
            ck(&s, m, &|| "built".to_string())?;
            ensure!(s.index(&Coordinate::new_xy(u.0, u.1)) == m.index(u.0, u.1) && s.index(&Coordinate::new_xy(v, v)) == 0, "{} search in {:?}", S::NAME, m);
            ensure!(s.min_i() == m.min(0, 2), "{} minimum of {:?} = {}", S::NAME, m, s.min_i());
            let mut n = m.clone();
            n.r[1][0] = v; n.r[1][1] = v;
            ensure!(S::equal(&s, &S::build(&n)) == (u == (v, v)), "{} equality of {:?} and {:?}", S::NAME, m, n);
            for j in 0..3 { for o in 0..m.d as usize {
                let mut t = S::build(m);
                let w = ulp(m.r[j][o], 1);
                t.set(j, o as i32, w);
                ensure!(same(w, m.r[j][o]) == S::equal(&t, &s) && S::equal(&t, &s) == S::equal(&s, &t), "{} equality with ordinate {} of {} set to {:e} in {:?}", S::NAME, o, j, w, m);
                x.t(2);
            } }
            single::<S>(m, x)?;
            let mut c = m.clone();
            c.r.push(m.r[1].clone());
            ensure!(S::build(&c).is_ring() == c.is_ring(), "{} ring test of {:?}", S::NAME, c);
            x.t(6);
            Ok(())
        }
        go::<CoordinateArraySequence>(&m, v, u, x)?;
        go::<PackedCoordinateSequenceDouble>(&m, v, u, x)
    });
    k.finish()
}
