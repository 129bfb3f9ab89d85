// P13 Coordinate arrays and coordinate lists edit like plain lists
use geos_rs::verif::*;
use geosmc::{ensure, mc::*, num::same};
type V = Vec<Coordinate>;
fn eq(a: &Coordinate, b: &Coordinate) -> bool { same(a.x, b.x) && same(a.y, b.y) && same(a.z, b.z) && same(a.m, b.m) }
fn eqv(a: &V, b: &V) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(p, q)| eq(p, q)) }
fn sh(v: &V) -> String { format!("[{}]", v.iter().map(|c| format!("({},{},{},{})", c.x, c.y, c.z, c.m)).collect::<Vec<_>>().join(" ")) }
fn s2(a: &Coordinate, b: &Coordinate) -> bool { a.x == b.x && a.y == b.y }
fn bad(a: &Coordinate) -> bool { !a.x.is_finite() || !a.y.is_finite() }
fn cmp(a: &Coordinate, b: &Coordinate) -> i32 { let o = a.x.partial_cmp(&b.x).unwrap().then(a.y.partial_cmp(&b.y).unwrap()); o as i32 }
fn dedup(v: &V) -> V { let mut r: V = vec![]; for c in v { if r.last().map(|l| !s2(l, c)).unwrap_or(true) { r.push(*c); } } r }
fn ring(v: &V) -> bool { v.len() >= 4 && s2(&v[0], &v[v.len() - 1]) }
fn scroll(v: &V, i: usize, r: bool) -> V {
    let mut v = v.clone();
    if i == 0 { return v; }
    if r { v.pop(); let k = i % v.len(); v.rotate_left(k); v.push(v[0]); } else { v.rotate_left(i); }
    v
}
macro_rules! is { ($g:expr, $w:expr, $v:expr, $($a:tt)*) => { { let (g, w) = ($g, $w); ensure!(g == w, "{} of {} = {:?} not {:?}", format!($($a)*), sh($v), g, w); } } }
macro_rules! isv { ($g:expr, $w:expr, $v:expr, $($a:tt)*) => { { let (g, w) = ($g, $w); ensure!(eqv(&g, &w), "{} of {} = {} not {}", format!($($a)*), sh($v), sh(&g), sh(&w)); } } }

const SYM: [(f64, f64); 4] = [(0.0, 0.0), (1.0, 0.0), (0.0, 2.0), (-1.0, -0.0)];
/// Z and M tell equal points apart
fn tag(p: (f64, f64), k: usize) -> Coordinate { Coordinate::new_xyzm(p.0, p.1, k as f64, -(k as f64)) }

#[derive(Clone, Debug)]
enum Op { Add(usize, bool), Ins(usize, usize, bool), List(usize, bool, bool), Plain(usize, bool), Range(usize, usize, bool), All(usize, bool), Close, Clone }
/// the model: (coordinate symbol, tag) pairs
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct L(Vec<(usize, usize)>);
const SRC: [&[usize]; 4] = [&[], &[0], &[0, 0, 1], &[2, 1, 1, 0, 2]];
fn src(k: usize) -> V { SRC[k].iter().enumerate().map(|(j, s)| tag(SYM[*s], 50 + 10 * k + j)).collect() }
impl L {
    fn push(&mut self, e: (usize, usize), rep: bool) { if rep || self.0.last().map(|l| l.0 != e.0).unwrap_or(true) { self.0.push(e); } }
    fn arr(&self) -> V { self.0.iter().map(|e| tag(SYM[e.0], e.1)).collect() }
    fn step(&mut self, o: &Op) {
        let s = |k: usize| -> Vec<(usize, usize)> { SRC[k].iter().enumerate().map(|(j, s)| (*s, 50 + 10 * k + j)).collect() };
        match o {
            Op::Add(c, r) => self.push((*c, 7 + c), *r),
            Op::Ins(i, c, r) => { let i = i % (self.0.len() + 1); if !*r && (i > 0 && self.0[i - 1].0 == *c || i < self.0.len() && self.0[i].0 == *c) { return; } self.0.insert(i, (*c, 20 + c)); }
            Op::List(k, r, fwd) => { let mut v = s(*k); if !fwd { v.reverse(); } for e in v { self.push(e, *r); } }
            Op::Plain(k, r) | Op::All(k, r) => for e in s(*k) { self.push(e, *r); },
            Op::Range(a, b, r) => { let v = s(3); let mut i = *a; while i != *b { self.push(v[i], *r); if a > b { i -= 1 } else { i += 1 } } }
            Op::Close => if let Some(f) = self.0.first().copied() { self.push(f, false) },
            Op::Clone => {}
        }
    }
}
fn apply(l: &mut CoordinateList, n: usize, o: &Op) -> Res {
    match o {
        Op::Add(c, r) => l.add_coordinate_repeated(tag(SYM[*c], 7 + c), *r),
        Op::Ins(i, c, r) => l.add_index_coordinate_repeated(i % (n + 1), tag(SYM[*c], 20 + c), *r),
        Op::List(k, r, f) => { l.add_coordinate_list_repeated_direction(&src(*k), *r, *f); }
        Op::Plain(k, r) => { l.add_coordinate_list_repeated(&src(*k), *r); }
        Op::All(k, r) => { let v = src(*k); let e = v.is_empty(); let g = l.add_all(v, *r); ensure!(!(e && g), "adding nothing reports a change"); }
        Op::Range(a, b, r) => { l.add_coordinate_list_repeated_start_end(&src(3), *r, *a, *b); }
        Op::Close => l.close_ring(),
        Op::Clone => { let c = l.clone(); l.add_coordinate_repeated(tag((9.0, 9.0), 9), true); *l = c; }
    }
    Ok(())
}
fn look(l: &CoordinateList, m: &L, h: &dyn Fn() -> String) -> Res {
    let w = m.arr();
    let g = l.to_coordinate_array();
    ensure!(eqv(&g, &w), "{}: list {} not {}", h(), sh(&g), sh(&w));
    let g = l.to_coordinate_array_forward(true);
    ensure!(eqv(&g, &w), "{}: forward array {} not {}", h(), sh(&g), sh(&w));
    let mut r = w.clone();
    r.reverse();
    let g = l.to_coordinate_array_forward(false);
    ensure!(eqv(&g, &r), "{}: backward array {} not {}", h(), sh(&g), sh(&r));
    for i in 0..w.len() + 2 { let g = l.get_coordinate(i); ensure!(match (g, w.get(i)) { (Some(a), Some(b)) => eq(&a, b), (None, None) => true, _ => false }, "{}: coordinate {} of {}", h(), i, sh(&w)); }
    Ok(())
}

fn main() {
    let mut k = Check::new("P13");
    let n = k.q(8usize, 10);
    k.family("every array utility on every array", seqs(4, 0, n), |i, x| {
        let mut d = Dec(i);
        let sy = seq(&mut d, 4, 0, n);
        let v: V = sy.iter().enumerate().map(|(k, s)| tag(SYM[*s], k)).collect();
        x.note(|| sh(&v));
        let u = dedup(&v);
        x.out(if u.len() < v.len() { "repeats" } else { "no repeats" });
        is!(CoordinateArrays::has_repeated_points(&v), u.len() < v.len(), &v, "has_repeated_points");
        isv!(CoordinateArrays::remove_repeated_points(&v), u.clone(), &v, "remove_repeated_points");
        is!(CoordinateArrays::has_repeated_or_invalid_points(&v), u.len() < v.len(), &v, "has_repeated_or_invalid_points");
        isv!(CoordinateArrays::remove_repeated_or_invalid_points(&v), u.clone(), &v, "remove_repeated_or_invalid_points");
        isv!(CoordinateArrays::copy_deep(&v), v.clone(), &v, "copy_deep");
        is!(CoordinateArrays::is_ring(&v), ring(&v), &v, "is_ring");
        isv!(CoordinateList::new(v.clone()).to_coordinate_array(), v.clone(), &v, "CoordinateList::new");
        isv!(CoordinateList::new_with_repeated(v.clone(), true).to_coordinate_array(), v.clone(), &v, "CoordinateList with repeats");
        isv!(CoordinateList::new_with_repeated(v.clone(), false).to_coordinate_array(), u.clone(), &v, "CoordinateList without repeats");
        // increasing direction: sign of the first unsymmetric pair, 1 for a palindrome
        let l = v.len();
        let dir = (0..l).map(|i| cmp(&v[i], &v[l - 1 - i])).find(|c| *c != 0).unwrap_or(1);
        is!(CoordinateArrays::increasing_direction(&v).signum(), dir, &v, "increasing_direction");
        let mut mi: Option<usize> = None;
        for i in 0..l { if mi.map(|m| cmp(&v[i], &v[m]) < 0).unwrap_or(true) { mi = Some(i); } }
        let g = CoordinateArrays::min_coordinate(&v);
        ensure!(match (g, mi) { (None, None) => true, (Some(g), Some(i)) => eq(&g, &v[i]), _ => false }, "min_coordinate of {}", sh(&v));
        for a in 0..l + 2 { for b in 0..l + 2 {
            let w = if a >= l || b < a { vec![] } else { v[a..=b.min(l - 1)].to_vec() };
            isv!(CoordinateArrays::extract(&v, a, b), w, &v, "extract {}..={}", a, b);
        } }
        for m in 0..l + 2 { isv!(CoordinateArrays::at_least_n_coordinates_or_nothing(m, &v), if l >= m { v.clone() } else { vec![] }, &v, "at_least_n {}", m); }
        for p in SYM.iter().chain(&[(3.0, 3.0)]) {
            let c = Coordinate::new_xyz(p.0, p.1, 99.0);
            let at = v.iter().position(|q| s2(q, &c));
            is!(CoordinateArrays::index_of(&c, &v), at.map(|a| a as i32).unwrap_or(-1), &v, "index_of {:?}", p);
            let mut t = v.clone();
            CoordinateArrays::scroll_coordinate(&mut t, &c);
            isv!(t, at.map(|a| scroll(&v, a, ring(&v))).unwrap_or(v.clone()), &v, "scroll to {:?}", p);
        }
        for a in 0..l {
            let mut t = v.clone();
            CoordinateArrays::scroll_index(&mut t, a);
            isv!(t, scroll(&v, a, ring(&v)), &v, "scroll_index {}", a);
            let mut t = v.clone();
            CoordinateArrays::scroll_index_ensure_ring(&mut t, a, false);
            isv!(t, scroll(&v, a, false), &v, "scroll_index {} without ring", a);
            if ring(&v) {
                let mut t = v.clone();
                CoordinateArrays::scroll_index_ensure_ring(&mut t, a, true);
                isv!(t, scroll(&v, a, true), &v, "scroll_index {} as ring", a);
            }
            for b in 0..l - a + 1 { for s in 0..3 {
                let mut t: V = (0..b + s + 1).map(|k| tag((5.0, 5.0), 90 + k)).collect();
                let mut w = t.clone();
                w[s..s + b].copy_from_slice(&v[a..a + b]);
                CoordinateArrays::copy_deep_to(&v, a, &mut t, s, b);
                isv!(t, w, &v, "copy {} from {} to {}", b, a, s);
            } }
        }
        let e = CoordinateArrays::envelope(&v);
        if l == 0 { ensure!(e.is_null(), "envelope of nothing is not null"); } else {
            let f = |g: fn(&Coordinate) -> f64| (v.iter().map(g).fold(f64::INFINITY, f64::min), v.iter().map(g).fold(-f64::INFINITY, f64::max));
            let (a, b) = (f(|c| c.x), f(|c| c.y));
            is!((e.get_min_x(), e.get_max_x(), e.get_min_y(), e.get_max_y()), (a.0, a.1, b.0, b.1), &v, "envelope");
        }
        for q in [None, Some((0.0, 0.0, 0.0, 0.0)), Some((0.0, 1.0, 0.0, 2.0)), Some((-1.0, 0.0, -5.0, 1.0))] {
            let e = q.map(|q: (f64, f64, f64, f64)| Envelope::new_xy(q.0, q.1, q.2, q.3)).unwrap_or(Envelope::default());
            let w: V = v.iter().filter(|c| q.map(|q| c.x >= q.0 && c.x <= q.1 && c.y >= q.2 && c.y <= q.3).unwrap_or(false)).copied().collect();
            isv!(CoordinateArrays::intersection(&v, &e), w, &v, "intersection with {:?}", q);
        }
        x.t((30 + l * l * 4) as u64);
        Ok(())
    });
    let n = k.q(5usize, 6);
    k.family("pairs of arrays", pow(seqs(4, 0, n) as usize, 2), |i, x| {
        let t = seqs(4, 0, n);
        let mk = |i: u64, o: usize| -> V { let mut d = Dec(i); seq(&mut d, 4, 0, n).iter().enumerate().map(|(k, s)| tag(SYM[*s], k + o)).collect() };
        let (a, b) = (mk(i % t, 0), mk(i / t, 5));
        x.note(|| format!("{} {}", sh(&a), sh(&b)));
        let e = a.len() == b.len() && a.iter().zip(&b).all(|(p, q)| s2(p, q));
        x.out(if e { "equal" } else { "different" });
        is!(CoordinateArrays::equals(&a, &b), e, &a, "equality with {}", sh(&b));
        let c = a.iter().zip(&b).map(|(p, q)| cmp(p, q)).find(|c| *c != 0).unwrap_or((a.len() as i32 - b.len() as i32).signum());
        is!(CoordinateArrays::compare(&a, &b).signum(), c, &a, "comparison with {}", sh(&b));
        if a.len() == b.len() { is!(CoordinateArrays::is_equal_reversed(&a, &b), a.iter().zip(b.iter().rev()).all(|(p, q)| s2(p, q)), &a, "reversed equality with {}", sh(&b)); x.t(1); }
        let g = CoordinateArrays::pt_not_in_list(&a, &b);
        let w = a.iter().find(|p| !b.iter().any(|q| s2(p, q)));
        ensure!(match (g, w) { (None, None) => true, (Some(g), Some(w)) => eq(&g, w), _ => false }, "point of {} not in {}", sh(&a), sh(&b));
        x.t(3);
        Ok(())
    });
    // arrays with NaN and infinite ordinates
    let al: Vec<(f64, f64)> = vec![(0.0, 0.0), (1.0, 0.0), (f64::NAN, 0.0), (0.0, f64::NAN), (f64::INFINITY, 0.0), (0.0, -f64::INFINITY), (f64::NAN, f64::INFINITY)];
    let n = k.q(6usize, 8);
    k.family("arrays with invalid points", seqs(7, 0, n), |i, x| {
        let mut d = Dec(i);
        let sy = seq(&mut d, 7, 0, n);
        let v: V = sy.iter().enumerate().map(|(k, s)| tag(al[*s], k)).collect();
        x.note(|| sh(&v));
        let inv = v.iter().any(bad);
        let rep = v.windows(2).any(|w| s2(&w[0], &w[1]));
        x.out(match (inv, rep) { (true, true) => "invalid and repeated", (true, false) => "invalid", (false, true) => "repeats", _ => "no repeats" });
        for c in &v { ensure!(c.is_valid() == !bad(c), "({},{}) is_valid = {}", c.x, c.y, c.is_valid()); }
        is!(CoordinateArrays::has_repeated_points(&v), rep, &v, "has_repeated_points");
        is!(CoordinateArrays::has_repeated_or_invalid_points(&v), inv || rep, &v, "has_repeated_or_invalid_points");
        let w = dedup(&v.iter().filter(|c| !bad(c)).copied().collect());
        isv!(CoordinateArrays::remove_repeated_or_invalid_points(&v), w, &v, "remove_repeated_or_invalid_points");
        isv!(CoordinateArrays::remove_repeated_points(&v), dedup(&v), &v, "remove_repeated_points");
        x.t(4);
        Ok(())
    });
    // dimension and measures of mixed layouts
    let n = k.q(8usize, 10);
    k.family("layouts", seqs(4, 0, n), |i, x| {
        let mut d = Dec(i);
        let sy = seq(&mut d, 4, 0, n);
        let v: V = sy.iter().enumerate().map(|(k, s)| { let f = k as f64; match s { 0 => Coordinate::new_xy(f, 1.0), 1 => Coordinate::new_xyz(f, 2.0, f + 0.5), 2 => Coordinate::new_xym(f, 3.0, f + 0.25), _ => Coordinate::new_xyzm(f, 4.0, f + 0.125, -f) } }).collect();
        x.note(|| sh(&v));
        let dm = |s: usize| ([2, 3, 3, 4][s], [0, 0, 1, 1][s]);
        for (c, s) in v.iter().zip(&sy) { ensure!((Coordinates::dimension(c), Coordinates::measures(c)) == dm(*s), "layout of ({},{},{},{})", c.x, c.y, c.z, c.m); }
        let (wd, wm) = if v.is_empty() { (3, 0) } else { (sy.iter().map(|s| dm(*s).0).max().unwrap(), sy.iter().map(|s| dm(*s).1).max().unwrap()) };
        is!(CoordinateArrays::dimension(&v), wd, &v, "dimension");
        is!(CoordinateArrays::measures(&v), wm, &v, "measures");
        let consistent = sy.iter().all(|s| *s == sy[0]);
        x.out(if consistent { "consistent" } else { "mixed" });
        let keeps = |g: &V, d: i32, m: i32, all: bool, what: &str| -> Res {
            ensure!(g.len() == v.len(), "{} of {} changed the length", what, sh(&v));
            for (a, b) in v.iter().zip(g) {
                ensure!(a.x == b.x && a.y == b.y, "{} of {} changed X or Y: {}", what, sh(&v), sh(g));
                // ordinates of the target layout are kept
                if (all || d - m > 2) && !a.z.is_nan() { ensure!(a.z == b.z, "{} of {} lost Z: {}", what, sh(&v), sh(g)); }
                // every coordinate of the result has the target's measures, and no Z where the target has none
                ensure!(Coordinates::measures(b) == m || m == 0 && !a.m.is_nan(), "{} of {} gives ({},{},{},{}), not {} measures", what, sh(&v), b.x, b.y, b.z, b.m, m);
                if (all || m > 0) && !a.m.is_nan() { ensure!(a.m == b.m, "{} of {} lost M: {}", what, sh(&v), sh(g)); }
            }
            Ok(())
        };
        let mut t = v.clone();
        CoordinateArrays::enforce_consistency(&mut t);
        keeps(&t, wd, wm, false, "enforcing consistency")?;
        if consistent { isv!(t.clone(), v.clone(), &v, "enforcing consistency"); }
        for (d, m) in [(2, 0), (3, 0), (3, 1), (4, 1)] { keeps(&CoordinateArrays::enforce_consistency_dim_measures(&v, d, m), d, m, false, &format!("enforcing layout ({},{})", d, m))?; }
        x.t(7);
        Ok(())
    });
    // coordinate lists: all reachable lists up to a length
    let mut ops = vec![Op::Close, Op::Clone];
    for r in [true, false] {
        for c in 0..3 { ops.push(Op::Add(c, r)); for i in 0..3 { ops.push(Op::Ins(i, c, r)); } }
        for s in 0..4 { ops.push(Op::List(s, r, true)); ops.push(Op::List(s, r, false)); ops.push(Op::Plain(s, r)); ops.push(Op::All(s, r)); }
        for (a, b) in [(0, 5), (4, 0), (1, 3), (3, 1), (2, 2), (4, 3)] { ops.push(Op::Range(a, b, r)); }
    }
    let l = k.q(4usize, 5);
    k.family("list histories", pow(ops.len(), l), |i, x| {
        let mut d = Dec(i);
        let h: Vec<&Op> = (0..l).map(|_| d.of(&ops)).collect();
        let (mut c, mut m) = (CoordinateList::default(), L(vec![]));
        for o in &h {
            let n = m.0.len();
            apply(&mut c, n, o).map_err(|e| format!("history {:?}: {}", h, e))?;
            m.step(o);
            x.t(1);
            look(&c, &m, &|| format!("history {:?}", h))?;
        }
        x.note(|| format!("{:?} -> {:?}", h, m.0));
        x.out(if m.0.windows(2).any(|w| w[0].0 == w[1].0) { "repeats" } else { "no repeats" });
        Ok(())
    });
    let cap = k.q(5usize, 6);
    let small: Vec<Op> = ops.iter().filter(|o| !matches!(o, Op::Plain(..) | Op::All(..) | Op::Clone)).cloned().collect();
    k.bfs("reachable lists", vec![L(vec![])], k.q(4, 5), |s, x| {
        let mut out = vec![];
        for o in &small {
            // rebuild the real list in this state, then run the operation
            let mut c = CoordinateList::new(s.arr());
            let mut m = s.clone();
            apply(&mut c, s.0.len(), o)?;
            m.step(o);
            x.t(1);
            look(&c, &m, &|| format!("{:?} on {:?}", o, s))?;
            if m.0.len() <= cap { out.push((format!("{:?}", o), m)); }
        }
        Ok(out)
    });
    // arrays of every length with something special at every position
    let n = k.q(70usize, 220);
    let long = |l: usize, p: usize, close: bool, x: &mut Ctx| -> Res {
        if p >= l || (close && l < 4) { return x.skip(); }
        let at = |k: usize| (((k * 7) % 11) as f64 + 1.0, k as f64);
        let mk = |f: &dyn Fn(usize) -> (f64, f64)| -> V { (0..l).map(|k| tag(f(k), k)).collect() };
        x.note(|| format!("{} points, special at {}, closed {}", l, p, close));
        // the minimum at p; closed
        let mut v = mk(&|k| if k == p { (0.5, 3.0) } else { at(k) });
        if close { v[l - 1] = tag((v[0].x, v[0].y), 7); }
        let m = (0..l).fold(0, |m, k| if cmp(&v[k], &v[m]) < 0 { k } else { m });
        x.out(if close { "ring" } else { "open" });
        ensure!(CoordinateArrays::min_coordinate(&v).map(|g| eq(&g, &v[m])) == Some(true), "minimum of {} points is not number {}", l, m);
        is!(CoordinateArrays::is_ring(&v), ring(&v), &v, "is_ring");
        let c = v[p];
        let first = v.iter().position(|q| s2(q, &c)).unwrap();
        is!(CoordinateArrays::index_of(&c, &v), first as i32, &v, "index_of number {}", p);
        let mut t = v.clone(); CoordinateArrays::scroll_coordinate(&mut t, &c);
        isv!(t, scroll(&v, first, ring(&v)), &v, "scroll to number {}", p);
        let mut t = v.clone(); CoordinateArrays::scroll_index(&mut t, p);
        isv!(t, scroll(&v, p, ring(&v)), &v, "scroll_index {}", p);
        let mut t = v.clone(); CoordinateArrays::scroll_index_ensure_ring(&mut t, p, false);
        isv!(t, scroll(&v, p, false), &v, "scroll_index {} without ring", p);
        isv!(CoordinateArrays::copy_deep(&v), v.clone(), &v, "copy_deep");
        for (a, b) in [(0, p), (p, l - 1), (p, p + 3), (p / 2, p)] { isv!(CoordinateArrays::extract(&v, a, b), if a >= l { vec![] } else { v[a..=b.min(l - 1)].to_vec() }, &v, "extract {}..={}", a, b); }
        for (a, s, len) in [(0, p, l - p), (p, 0, l - p), (p, p, l - p), (0, 0, p)] {
            let mut t: V = (0..l).map(|k| tag((-5.0, -5.0), 900 + k)).collect();
            let mut w = t.clone();
            w[s..s + len].copy_from_slice(&v[a..a + len]);
            CoordinateArrays::copy_deep_to(&v, a, &mut t, s, len);
            isv!(t, w, &v, "copy {} from {} to {}", len, a, s);
        }
        for m in [p, l, l + 1] { isv!(CoordinateArrays::at_least_n_coordinates_or_nothing(m, &v), if l >= m { v.clone() } else { vec![] }, &v, "at_least_n {}", m); }
        let e = CoordinateArrays::envelope(&v);
        let f = |g: fn(&Coordinate) -> f64| (v.iter().map(g).fold(f64::INFINITY, f64::min), v.iter().map(g).fold(-f64::INFINITY, f64::max));
        let (a, b) = (f(|c| c.x), f(|c| c.y));
        is!((e.get_min_x(), e.get_max_x(), e.get_min_y(), e.get_max_y()), (a.0, a.1, b.0, b.1), &v, "envelope");
        let box_ = Envelope::new_xy(2.0, 9.0, p as f64 * 0.5, p as f64);
        isv!(CoordinateArrays::intersection(&v, &box_), v.iter().filter(|c| box_.covers_xy(c.x, c.y)).copied().collect::<V>(), &v, "intersection");
        // one repeat, a run of repeats, or an invalid point at p
        for kind in 0..4 {
            let run = [1usize, 2, 5, 1][kind];
            let w = mk(&|k| if kind < 3 { if k > p && k <= p + run { at(p) } else { at(k) } } else if k == p { (f64::NAN, 1.0) } else { at(k) });
            let rep = w.windows(2).any(|w| s2(&w[0], &w[1]));
            let inv = kind == 3;
            is!(CoordinateArrays::has_repeated_points(&w), rep, &w, "has_repeated_points");
            is!(CoordinateArrays::has_repeated_or_invalid_points(&w), rep || inv, &w, "has_repeated_or_invalid_points");
            isv!(CoordinateArrays::remove_repeated_points(&w), dedup(&w), &w, "remove_repeated_points");
            let clean = dedup(&w.iter().filter(|c| !bad(c)).copied().collect());
            isv!(CoordinateArrays::remove_repeated_or_invalid_points(&w), clean, &w, "remove_repeated_or_invalid_points");
            if kind < 3 { isv!(CoordinateList::new_with_repeated(w.clone(), false).to_coordinate_array(), dedup(&w), &w, "CoordinateList without repeats");
                isv!(CoordinateList::new_with_repeated(w.clone(), true).to_coordinate_array(), w.clone(), &w, "CoordinateList with repeats"); }
        }
        // two arrays that differ at p only
        for dx in [-1.0, 1.0] {
            let mut w = v.clone();
            w[p].x += dx;
            is!(CoordinateArrays::equals(&v, &w), false, &v, "equality with a copy changed at {}", p);
            is!(CoordinateArrays::compare(&v, &w).signum(), -dx as i32, &v, "comparison with a copy changed at {}", p);
            let mut r = w.clone(); r.reverse();
            is!(CoordinateArrays::is_equal_reversed(&v, &r), false, &v, "reversed equality with a copy changed at {}", p);
            is!(CoordinateArrays::compare(&v, &v[..p].to_vec()).signum(), 1, &v, "comparison with its first {}", p);
            is!(CoordinateArrays::equals(&v, &v[..p].to_vec()), false, &v, "equality with its first {}", p);
            // quadratic
            if l > 5000 { continue; }
            let g = CoordinateArrays::pt_not_in_list(&w, &v);
            let m = w.iter().find(|p| !v.iter().any(|q| s2(p, q)));
            ensure!(match (g, m) { (None, None) => true, (Some(g), Some(w)) => eq(&g, w), _ => false }, "point not in list, {} points changed at {}", l, p);
        }
        let mut r = v.clone(); r.reverse();
        is!(CoordinateArrays::is_equal_reversed(&v, &r), true, &v, "reversed equality");
        is!(CoordinateArrays::equals(&v, &v.clone()), true, &v, "equality with a copy");
        // a palindrome broken at p
        let pal = mk(&|k| at(k.min(l - 1 - k)));
        is!(CoordinateArrays::increasing_direction(&pal), 1, &pal, "direction of a palindrome");
        for dy in [-0.5, 0.5] {
            let mut w = pal.clone(); w[p].y += dy;
            let dir = (0..l).map(|i| cmp(&w[i], &w[l - 1 - i])).find(|c| *c != 0).unwrap_or(1);
            is!(CoordinateArrays::increasing_direction(&w).signum(), dir, &w, "direction of a palindrome broken at {}", p);
        }
        // a layout change at p
        let mut w: V = (0..l).map(|k| Coordinate::new_xyz(k as f64, 1.0, k as f64 + 0.5)).collect();
        w[p] = Coordinate::new_xyzm(p as f64, 1.0, 9.0, 8.0);
        is!((CoordinateArrays::dimension(&w), CoordinateArrays::measures(&w)), (4, 1), &w, "layout with one measured point at {}", p);
        let mut t = w.clone(); CoordinateArrays::enforce_consistency(&mut t);
        ensure!(t.len() == l && t.iter().zip(&w).all(|(a, b)| s2(a, b) && a.z == b.z) && eq(&t[p], &w[p]), "enforcing consistency of {} points, one measured at {}, gives {}", l, p, sh(&t));
        // a coordinate list: insert at p, range from p, backwards
        let src: V = mk(&at);
        let mut c = CoordinateList::new(src.clone());
        c.add_index_coordinate_repeated(p, tag((99.0, 99.0), 5), false);
        let mut w = src.clone(); w.insert(p, tag((99.0, 99.0), 5));
        isv!(c.to_coordinate_array(), w, &src, "insertion at {}", p);
        for q in [p, if p > 0 { p - 1 } else { l - 1 }] {
            let mut c = CoordinateList::new(src.clone());
            c.add_index_coordinate_repeated(p, tag(at(q), 6), false);
            let blocked = q == p || (p > 0 && q == p - 1);
            let mut w = src.clone(); if !blocked { w.insert(p, tag(at(q), 6)); }
            isv!(c.to_coordinate_array(), w, &src, "insertion at {} of a copy of number {}", p, q);
        }
        for (a, b) in [(p, l), (0, p), (l - 1, p)] {
            let mut c = CoordinateList::default();
            c.add_coordinate_list_repeated_start_end(&src, p % 2 == 0, a, b);
            let mut w: V = vec![]; let mut j = a; while j != b { w.push(src[j]); if a > b { j -= 1 } else { j += 1 } }
            isv!(c.to_coordinate_array(), w, &src, "range {} to {}", a, b);
        }
        let mut c = CoordinateList::new(src[..p].to_vec());
        c.add_coordinate_list_repeated_direction(&src, false, false);
        let mut w: V = src[..p].to_vec(); for s in src.iter().rev() { if w.last().map(|z| !s2(z, s)).unwrap_or(true) { w.push(*s); } }
        isv!(c.to_coordinate_array(), w.clone(), &src, "backward addition to its first {}", p);
        c.close_ring();
        if !s2(&w[0], &w[w.len() - 1]) { let f = w[0]; w.push(f); }
        isv!(c.to_coordinate_array(), w.clone(), &src, "closing the ring");
        w.reverse();
        isv!(c.to_coordinate_array_forward(false), w, &src, "backward array");
        for fwd in [true, false] {
            let mut c = CoordinateList::new(src[..p].to_vec());
            c.add_all(src[p..].to_vec(), fwd);
            isv!(c.to_coordinate_array(), src.clone(), &src, "addition of the last {}", l - p);
            let mut c = CoordinateList::new(src[p..].to_vec());
            c.add_coordinate_list_repeated(&src[..p].to_vec(), fwd);
            let mut w = src[p..].to_vec();
            w.extend(&src[..p]);
            isv!(c.to_coordinate_array(), w.clone(), &src, "addition of the first {}", p);
            isv!(c.clone().to_coordinate_array(), w, &src, "clone");
        }
        ensure!(CoordinateList::new(src.clone()).get_coordinate(p).map(|g| eq(&g, &src[p])) == Some(true), "coordinate {} of {}", p, l);
        x.t(66);
        Ok(())
    };
    k.family("long arrays", (n * n * 2) as u64, |i, x| {
        let mut d = Dec(i);
        long(d.take(n) + 1, d.take(n), d.bit(), x)
    });
    let mut very: Vec<(usize, usize)> = vec![];
    for l in [127usize, 128, 129, 255, 256, 257, 300, 301, 511, 513, 1000, 1025, 4097, 32769, 65537] {
        let mut at: Vec<usize> = vec![0, 1, 63, 64, 99, 100, 127, 128, 149, 150, 199, 200, 254, 255, 256, 257, 299, 300, 301, 511, 512, 999, 1000, 1023, 1024, 4096, l / 2, l - 2, l - 1];
        if l > 5000 { at = vec![1, 257, 32768, 65535, 65536, l / 2, l - 2, l - 1]; }
        at.sort(); at.dedup();
        very.extend(at.into_iter().filter(|a| *a < l).map(|a| (l, a)));
    }
    let nv = very.len();
    k.family("very long arrays", (nv * 2) as u64, |i, x| {
        let mut d = Dec(i);
        let (l, p) = *d.of(&very);
        long(l, p, d.bit(), x)
    });
    k.family("very long arrays of mixed layouts", (nv * 4) as u64, |i, x| {
        let mut d = Dec(i);
        let (l, p) = *d.of(&very);
        let kind = d.take(4);
        // all but one measured, one measured, all but one without Z, measured from one on
        let v: V = (0..l).map(|j| { let f = j as f64; let with = match kind { 0 | 2 => j != p, 1 => j == p, _ => j >= p }; if kind == 2 { if with { Coordinate::new_xyz(f, 1.0, f + 0.5) } else { Coordinate::new_xy(f, 1.0) } } else if with { Coordinate::new_xym(f, 1.0, f + 0.25) } else { Coordinate::new_xy(f, 1.0) } }).collect();
        x.note(|| format!("{} points, {} {}", l, kind, p));
        let mut t = v.clone();
        CoordinateArrays::enforce_consistency(&mut t);
        let u = CoordinateArrays::enforce_consistency_dim_measures(&v, 3, if kind == 2 { 0 } else { 1 });
        let wm = if kind == 2 || (l == 1 && kind == 0) { 0 } else { 1 };
        for (nm, g) in [("enforcing consistency", &t), ("enforcing a layout", &u)] {
            ensure!(g.len() == l, "{} of {} points gives {}", nm, l, g.len());
            for (j, (a, b)) in v.iter().zip(g).enumerate() {
                ensure!(a.x == b.x && a.y == b.y && (a.z == b.z || a.z.is_nan()) && (a.m == b.m || a.m.is_nan()), "{} of {} points (kind {} at {}): point {} is ({},{},{},{})", nm, l, kind, p, j, b.x, b.y, b.z, b.m);
                ensure!(wm == 0 || Coordinates::measures(b) == 1, "{} of {} points (kind {} at {}): point {} has no measure", nm, l, kind, p, j);
            }
        }
        x.t(2);
        Ok(())
    });
    // one last bit decides equality, order, search and membership, at every scale
    k.family("last bits", 2046 * 9 * 4, |i, x| {
        let mut d = Dec(i);
        let (dx, dy) = (d.take(3) as i64 - 1, d.take(3) as i64 - 1);
        let (sx, sy) = (if d.bit() { -1.0 } else { 1.0 }, if d.bit() { -1.0 } else { 1.0 });
        let v = f64::from_bits((d.take(2046) as u64 + 1) << 52);
        let p = tag((sx * v, sy * v), 1);
        let q = tag((geosmc::num::ulp(sx * v, dx), geosmc::num::ulp(sy * v, dy)), 2);
        let e = s2(&p, &q);
        x.note(|| sh(&vec![p, q]));
        x.out(if e { "equal" } else { "one last bit apart" });
        let (a, b) = (vec![p], vec![q]);
        is!(CoordinateArrays::equals(&a, &b), e, &a, "equality with {}", sh(&b));
        is!(CoordinateArrays::compare(&a, &b).signum(), cmp(&p, &q), &a, "comparison with {}", sh(&b));
        is!(CoordinateArrays::is_equal_reversed(&a, &b), e, &a, "reversed equality with {}", sh(&b));
        is!(CoordinateArrays::index_of(&q, &a), if e { 0 } else { -1 }, &a, "search for {}", sh(&b));
        is!(CoordinateArrays::pt_not_in_list(&a, &b).is_none(), e, &a, "point not in {}", sh(&b));
        let v = vec![p, q];
        is!(CoordinateArrays::has_repeated_points(&v), e, &v, "has_repeated_points");
        isv!(CoordinateArrays::remove_repeated_points(&v), dedup(&v), &v, "remove_repeated_points");
        is!(CoordinateArrays::has_repeated_or_invalid_points(&v), e, &v, "has_repeated_or_invalid_points");
        isv!(CoordinateArrays::remove_repeated_or_invalid_points(&v), dedup(&v), &v, "remove_repeated_or_invalid_points");
        is!(CoordinateArrays::increasing_direction(&v).signum(), if e { 1 } else { cmp(&p, &q) }, &v, "increasing_direction");
        ensure!(CoordinateArrays::min_coordinate(&v).map(|g| eq(&g, if cmp(&q, &p) < 0 { &q } else { &p })) == Some(true), "minimum of {}", sh(&v));
        is!(CoordinateArrays::is_ring(&vec![p, tag((7.0, 7.0), 0), tag((8.0, 7.0), 0), q]), e, &v, "ring test");
        let box_ = Envelope::new_coordinate(&p);
        isv!(CoordinateArrays::intersection(&v, &box_), if e { v.clone() } else { vec![p] }, &v, "intersection");
        let mut c = CoordinateList::new(vec![p]);
        c.add_coordinate_repeated(q, false);
        isv!(c.to_coordinate_array(), dedup(&v), &v, "addition");
        let mut c = CoordinateList::new(vec![p]);
        c.add_index_coordinate_repeated(0, q, false);
        isv!(c.to_coordinate_array(), if e { vec![p] } else { vec![q, p] }, &v, "insertion");
        let mut c = CoordinateList::new(vec![p, tag((7.0, 7.0), 0), q]);
        c.close_ring();
        is!(c.to_coordinate_array().len(), if e { 3 } else { 4 }, &v, "closing");
        x.t(16);
        Ok(())
    });
    k.finish()
}
