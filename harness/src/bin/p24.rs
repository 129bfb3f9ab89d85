// P24 Scalar helpers and shuffling
#![allow(unexpected_cfgs)]
use geos_rs::verif::*;
use geosmc::{ensure, mc::*, num::*};

fn valid(v: &[i32], n: usize) -> bool {
    let mut w = v.to_vec();
    w.sort();
    w.len() == n && w.iter().enumerate().all(|(k, q)| *q == k as i32)
}

/// every execution of the shuffle, over all outcomes of every random choice it makes
#[cfg(feature = "controlled")]
fn all_shuffles(n: usize, x: &mut Ctx) -> Res {
    use rand::control::*;
    use std::collections::HashMap;
    let mut script: Vec<u64> = vec![];
    let mut weight: HashMap<Vec<i32>, f64> = HashMap::new();
    let _ = coarse();
    let mut uniform = true; // every choice is a choice among equally likely alternatives
    loop {
        begin(script.clone());
        let v = guarded(|| MathUtil::shuffle(n)).map_err(|e| format!("shuffle({}) with choices {:?}: {}", n, script, e))?;
        let tr = end();
        x.t(1);
        ensure!(valid(&v, n), "shuffle({}) with choices {:?} = {:?} is no permutation", n, tr, v);
        if coarse() || tr.iter().any(|c| c.0 > n as u64) { uniform = false; }
        *weight.entry(v).or_insert(0.0) += tr.iter().map(|c| 1.0 / c.0 as f64).product::<f64>();
        // next branch, depth first
        let mut t = tr;
        while let Some((m, c)) = t.pop() { if c + 1 < m { t.push((m, c + 1)); break; } }
        if t.is_empty() { break; }
        script = t.iter().map(|c| c.1).collect();
    }
    x.note(|| format!("{} items: {} results", n, weight.len()));
    let f = fact(n) as f64;
    if uniform {
        x.out("all choices, judged for fairness");
        ensure!(weight.len() as f64 == f, "shuffle({}) reaches only {} of {} orders", n, weight.len(), f);
        for (v, w) in &weight { ensure!((w * f - 1.0).abs() < 1e-9, "shuffle({}) yields {:?} with probability {} not 1/{}", n, v, w, f); }
    } else { x.out("all choices"); }
    Ok(())
}
/// shuffles too large for all outcomes: every outcome in which at most one choice (at the given places)
/// differs from the first (or last) alternative throughout; all choices made must allow exactly n! outcomes
#[cfg(feature = "controlled")]
fn big_shuffles(n: usize, x: &mut Ctx) -> Res {
    use rand::control::*;
    use std::collections::HashMap;
    let mut seen: HashMap<Vec<i32>, Vec<u64>> = HashMap::new();
    let _ = coarse();
    let mut twice = None;
    let mut go = |script: Vec<u64>, x: &mut Ctx| -> Result<(Vec<(u64, u64)>, bool), String> {
        begin(script);
        let v = guarded(|| MathUtil::shuffle(n)).map_err(|e| format!("shuffle({}) {}", n, e))?;
        let tr = end();
        x.t(1);
        ensure!(valid(&v, n), "shuffle({}) is no permutation: {:?} after choices {:?}", n, v, tr);
        let c = coarse();
        let ch: Vec<u64> = tr.iter().map(|c| c.1).collect();
        match seen.get(&v) { Some(o) => if *o != ch { twice = Some((o.clone(), ch)); }, None => { seen.insert(v, ch); } }
        Ok((tr, c))
    };
    let (base, mut rough) = go(vec![], x)?;
    let alts: Vec<u64> = base.iter().map(|c| c.0).collect();
    let last: Vec<u64> = alts.iter().map(|m| m - 1).collect();
    let mut steady = true;
    for which in 0..2 {
        let from = if which == 0 { vec![0; alts.len()] } else { last.clone() };
        let places: Vec<usize> = if n <= 70 { (0..alts.len()).collect() } else { let mut p = geosmc::geo::spots(n); p.retain(|k| *k < alts.len()); p };
        for p in places { for c in [0, 1, alts[p] / 2, 255, alts[p].saturating_sub(2), alts[p] - 1] {
            if c >= alts[p] { continue; }
            let mut s = from.clone();
            s[p] = c;
            match go(s, x) {
                Ok((tr, r)) => { rough |= r; steady &= tr.iter().map(|c| c.0).eq(alts.iter().copied()); }
                Err(e) if e.contains("script does not fit") => steady = false,
                Err(e) => return Err(e),
            }
        } }
    }
    // as many equally likely outcomes as there are orders, no two of those seen alike
    if steady && !rough {
        x.out("some choices, judged for fairness");
        let (mut a, mut b): (Vec<u64>, Vec<u64>) = (alts.into_iter().filter(|m| *m > 1).collect(), (2..=n as u64).collect());
        a.sort(); b.sort();
        let ln = |v: &[u64]| v.iter().map(|m| (*m as f64).ln()).sum::<f64>();
        if let (true, Some((o, c))) = (a == b, &twice) { return Err(format!("shuffle({}): choices {:?} and {:?} have the same outcome, so that another order is out of reach", n, o, c)); }
        ensure!(a == b || ln(&a) - ln(&b) > -1e-6, "shuffle({}) has e^{} outcomes for e^{} orders", n, ln(&a), ln(&b));
    } else { x.out("some choices"); }
    x.note(|| format!("{} items: {} outcomes", n, seen.len()));
    Ok(())
}

fn main() {
    let mut k = Check::new("P24");
    let al = [0.0, -0.0, 1.0, -1.0, 2.5, f64::MIN_POSITIVE, 1e300, -1e300, f64::INFINITY, f64::NEG_INFINITY, ulp(1.0, 1), ulp(1.0, -1), -2.5];
    k.family("clamping floats", pow(al.len(), 3), |i, x| {
        let mut d = Dec(i);
        let (v, lo, hi) = (*d.of(&al), *d.of(&al), *d.of(&al));
        if lo > hi { return x.skip(); }
        let g = MathUtil::clamp_f64(v, lo, hi);
        let w = if v < lo { lo } else if v > hi { hi } else { v };
        x.t(1);
        x.out(if v < lo { "below" } else if v > hi { "above" } else { "within" });
        x.note(|| format!("{} in [{},{}] -> {}", v, lo, hi, g));
        ensure!(g == w, "clamp({:e},{:e},{:e}) = {:e} not {:e}", v, lo, hi, g, w);
        Ok(())
    });
    let ia = [0, 1, -1, 2, -2, 7, -7, 100, i32::MAX, i32::MAX - 1, i32::MIN, i32::MIN + 1];
    k.family("clamping integers", pow(ia.len(), 3), |i, x| {
        let mut d = Dec(i);
        let (v, lo, hi) = (*d.of(&ia), *d.of(&ia), *d.of(&ia));
        x.t(2);
        let g = MathUtil::clamp_max(v, hi);
        ensure!(g == v.min(hi), "clamp_max({},{}) = {}", v, hi, g);
        if lo > hi { return x.skip(); }
        let g = MathUtil::clamp_i32(v, lo, hi);
        x.out(if v < lo { "below" } else if v > hi { "above" } else { "within" });
        ensure!(g == v.max(lo).min(hi), "clamp({},{},{}) = {}", v, lo, hi, g);
        Ok(())
    });
    let r = k.q(200i64, 4000);
    k.family("integer ceiling", pow((2 * r + 1) as usize, 2), |i, x| {
        let mut d = Dec(i);
        let (n, m) = (d.take((2 * r + 1) as usize) as i64 - r, d.take((2 * r + 1) as usize) as i64 - r);
        if m == 0 { return x.skip(); }
        // smallest integer not below n/m
        let w = (n as f64 / m as f64).ceil() as i64;
        let g = MathUtil::ceil(n as i32, m as i32) as i64;
        x.t(1);
        x.out(if n % m == 0 { "divides" } else if (n < 0) == (m < 0) { "positive quotient" } else { "negative quotient" });
        x.note(|| format!("{}/{} -> {}", n, m, g));
        ensure!(g == w, "ceil({},{}) = {} not {}", n, m, g, w);
        Ok(())
    });
    k.family("integer ceiling of extreme values", pow(ia.len(), 2), |i, x| {
        let mut d = Dec(i);
        let (n, m) = (*d.of(&ia) as i64, *d.of(&ia) as i64);
        if m == 0 || (n == i32::MIN as i64 && m == -1) { return x.skip(); }
        let q = n / m;
        let w = if n % m != 0 && (n < 0) == (m < 0) { q + 1 } else { q };
        let g = MathUtil::ceil(n as i32, m as i32) as i64;
        x.t(1);
        x.out("extreme");
        ensure!(g == w, "ceil({},{}) = {} not {}", n, m, g, w);
        Ok(())
    });
    let r = k.q(300i64, 3000);
    k.family("index wrapping", (2 * r + 1) as u64 * 60, |i, x| {
        let mut d = Dec(i);
        let m = 1 + d.take(60) as i64;
        let v = d.take((2 * r + 1) as usize) as i64 - r;
        let g = MathUtil::wrap(v as i32, m as i32) as i64;
        x.t(1);
        x.note(|| format!("{} mod {} -> {}", v, m, g));
        let w = v.rem_euclid(m);
        // documented as max - (-val) % max for negative values: a whole multiple gives max
        if v < 0 && w == 0 { x.out("negative multiple"); ensure!(g == 0 || g == m, "wrap({},{}) = {}", v, m, g); }
        else { x.out(if v < 0 { "negative" } else { "not negative" }); ensure!(g == w, "wrap({},{}) = {} not {}", v, m, g, w); }
        Ok(())
    });
    k.family("index wrapping of extreme values", pow(ia.len(), 2), |i, x| {
        let mut d = Dec(i);
        let (v, m) = (*d.of(&ia), *d.of(&ia));
        if m <= 0 { return x.skip(); }
        let g = MathUtil::wrap(v, m);
        let w = v.rem_euclid(m);
        x.t(1);
        x.out("extreme");
        ensure!(g == w || (v < 0 && w == 0 && g == m), "wrap({},{}) = {} not {}", v, m, g, w);
        Ok(())
    });
    // integers of every size
    let mut pi: Vec<i64> = vec![0];
    for e in 0..=31 { for o in [-3, -2, -1, 0, 1, 2, 3] { let v = (1i64 << e) + o; for v in [v, -v, v / 3, -v / 3] { if v as i32 as i64 == v { pi.push(v); } } } }
    pi.sort(); pi.dedup();
    k.family("integers of every size", pow(pi.len(), 2) * 9, |i, x| {
        let mut d = Dec(i);
        let (n, m) = (*d.of(&pi), *d.of(&pi));
        let q = *d.of(&[-1i64, 0, 1, -100, 100, -12345, 98765, 1 << 30, -(1 << 30)]);
        x.t(4);
        x.note(|| format!("{} {} {}", n, m, q));
        let (lo, hi) = (n.min(m), n.max(m));
        ensure!(MathUtil::clamp_i32(q as i32, lo as i32, hi as i32) as i64 == q.max(lo).min(hi), "clamp({},{},{}) = {}", q, lo, hi, MathUtil::clamp_i32(q as i32, lo as i32, hi as i32));
        ensure!(MathUtil::clamp_max(n as i32, m as i32) as i64 == n.min(m), "clamp_max({},{}) = {}", n, m, MathUtil::clamp_max(n as i32, m as i32));
        if m != 0 && !(n == i32::MIN as i64 && m == -1) {
            let w = -((-n).div_euclid(m));
            // euclidean division rounds down only for a positive divisor
            let w = if m > 0 { w } else { -(n.div_euclid(-m)) };
            let g = MathUtil::ceil(n as i32, m as i32) as i64;
            ensure!(g == w, "ceil({},{}) = {} not {}", n, m, g, w);
        }
        if m > 0 {
            let g = MathUtil::wrap(n as i32, m as i32) as i64;
            let w = n.rem_euclid(m);
            ensure!(g == w || (n < 0 && w == 0 && g == m), "wrap({},{}) = {} not {}", n, m, g, w);
        }
        Ok(())
    });
    // floats of every size, and their neighbours
    let es: Vec<i32> = (-1074..=1023).step_by(k.q(7, 1)).collect();
    k.family("floats of every size", es.len() as u64 * 7 * 7 * 4 * 4, |i, x| {
        let mut d = Dec(i);
        let e = *d.of(&es);
        let p = 2f64.powi(e / 2) * 2f64.powi(e - e / 2);
        let (a, b) = (ulp(p, d.take(7) as i64 - 3), ulp(p, d.take(7) as i64 - 3));
        let (a, b) = (if d.bit() { -a } else { a }, if d.bit() { -b } else { b });
        let o = *d.of(&[0.0, p, -p, p * 0.75]);
        x.t(8);
        x.note(|| format!("{:e} {:e} {:e}", a, b, o));
        let (lo, hi) = (a.min(b), a.max(b));
        let g = MathUtil::clamp_f64(o, lo, hi);
        ensure!(g == o.max(lo).min(hi), "clamp({:e},{:e},{:e}) = {:e}", o, lo, hi, g);
        ensure!(MathUtil::max_3(a, b, o) == a.max(b).max(o) && MathUtil::max_3(o, a, b) == a.max(b).max(o), "max of {:e} {:e} {:e}", a, b, o);
        for r in 0..4 {
            let mut v = [a, b, o, -p];
            v.rotate_left(r);
            ensure!(MathUtil::max_4(v[0], v[1], v[2], v[3]) == hi.max(o).max(-p), "max of {:?} = {:e}", v, MathUtil::max_4(v[0], v[1], v[2], v[3]));
            ensure!(MathUtil::min(v[0], v[1], v[2], v[3]) == lo.min(o).min(-p), "min of {:?} = {:e}", v, MathUtil::min(v[0], v[1], v[2], v[3]));
        }
        if a.abs() < 1e307 { let g = MathUtil::average(a, b); ensure!((g - (a / 2.0 + b / 2.0)).abs() <= 3e-16 * hi.abs().max(lo.abs()) + 5e-324, "average of {:e} and {:e} = {:e}", a, b, g); }
        // the tolerance itself, and just above and below it
        let t = o.abs();
        for t in [t, ulp(t, 1), if t > 0.0 { ulp(t, -1) } else { t }] { ensure!(NumberUtil::equals_with_tolerance(a, b, t) == ((a - b).abs() <= t), "{:e} and {:e} within {:e}", a, b, t); }
        let t = (a - b).abs();
        if t.is_finite() {
            ensure!(NumberUtil::equals_with_tolerance(a, b, t) && NumberUtil::equals_with_tolerance(b, a, t), "{:e} and {:e} differ by {:e}", a, b, t);
            if t > 0.0 { ensure!(!NumberUtil::equals_with_tolerance(a, b, ulp(t, -1)), "{:e} and {:e} within less than their difference", a, b); }
        }
        Ok(())
    });
    // quasirandom steps that land on, next to and beyond whole numbers
    k.family("quasirandom steps near whole numbers", 64 * 9 * 41, |i, x| {
        let mut d = Dec(i);
        let c = d.take(64) as f64 / 64.0;
        let w = (d.take(9) as f64) - c;
        let a = ulp(w, d.take(41) as i64 - 20);
        if c + a < 0.0 { return x.skip(); }
        let g = MathUtil::quasirandom_curr_alpha(c, a);
        x.t(1);
        x.out(if c + a < 1.0 { "below one" } else { "wrapped" });
        x.note(|| format!("{} + {} -> {}", c, a, g));
        ensure!((0.0..1.0).contains(&g), "{} + {} gives {}", c, a, g);
        let e = (c + a).fract();
        ensure!(g == e, "{} + {} gives {} not {}", c, a, g, e);
        Ok(())
    });
    // a start and a step of every size leave the fractional part of their sum
    k.family("quasirandom steps of every size", 64 * 64 * 5 * 5, |i, x| {
        let mut d = Dec(i);
        let (e, f) = (d.take(64) as i32 - 8, d.take(64) as i32 - 8);
        let fr = [1.0, 1.5, 1.9990234375, 1.1, 4.0 / 3.0];
        let (c, a) = (2f64.powi(e) * d.of(&fr), 2f64.powi(f) * d.of(&fr));
        let g = MathUtil::quasirandom_curr_alpha(c, a);
        x.t(1);
        x.out("any size");
        x.note(|| format!("{} + {} -> {}", c, a, g));
        ensure!(g == (c + a).fract(), "{} + {} gives {} not {}", c, a, g, (c + a).fract());
        if i < 64 * 64 {
            let g = MathUtil::quasirandom_curr(c);
            let e = (c + (5f64.sqrt() - 1.0) / 2.0).fract();
            x.t(1);
            let off = (g - e).abs();
            ensure!((0.0..1.0).contains(&g) && off.min(1.0 - off) <= 4.0 * f64::EPSILON * c.max(1.0), "{} is followed by {} not {}", c, g, e);
        }
        Ok(())
    });
    let al4 = [0.0, -0.0, 1.0, -1.0, 2.0, 3.0, -2.0, f64::INFINITY, f64::NEG_INFINITY, 1e300, ulp(1.0, 1)];
    k.family("averages, maxima and minima", pow(al4.len(), 4), |i, x| {
        let mut d = Dec(i);
        let v = [*d.of(&al4), *d.of(&al4), *d.of(&al4), *d.of(&al4)];
        let mx = |s: &[f64]| s.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
        let mn = v.iter().cloned().fold(f64::INFINITY, f64::min);
        x.t(4);
        x.out("extrema");
        x.note(|| format!("{:?}", v));
        ensure!(MathUtil::max_4(v[0], v[1], v[2], v[3]) == mx(&v), "max {:?} = {}", v, MathUtil::max_4(v[0], v[1], v[2], v[3]));
        ensure!(MathUtil::max_3(v[0], v[1], v[2]) == mx(&v[..3]), "max {:?} = {}", &v[..3], MathUtil::max_3(v[0], v[1], v[2]));
        ensure!(MathUtil::min(v[0], v[1], v[2], v[3]) == mn, "min {:?} = {}", v, MathUtil::min(v[0], v[1], v[2], v[3]));
        let g = MathUtil::average(v[0], v[1]);
        if v[0].is_finite() && v[1].is_finite() { ensure!(close(g, v[0] / 2.0 + v[1] / 2.0, 3e-16, 0.0), "average {} {} = {}", v[0], v[1], g); }
        Ok(())
    });
    let tl = [0.0, 0.5, 1.0, 0.1, 1e-9, 2.0, 3.0, f64::INFINITY, -1.0];
    let nl = [0.0, -0.0, 1.0, -1.0, 0.5, 1.5, 1.0 + 1e-9, 0.1, 1.1, 3.0, -2.0, f64::NAN, f64::INFINITY];
    k.family("equality within a tolerance", (nl.len() * nl.len() * tl.len()) as u64, |i, x| {
        let mut d = Dec(i);
        let (a, b, t) = (*d.of(&nl), *d.of(&nl), *d.of(&tl));
        let g = NumberUtil::equals_with_tolerance(a, b, t);
        let w = (a - b).abs() <= t;
        x.t(1);
        x.out(if w { "equal" } else { "different" });
        x.note(|| format!("{} {} within {}: {}", a, b, t, g));
        ensure!(g == w, "equals({:e},{:e},{:e}) = {}", a, b, t, g);
        Ok(())
    });
    // the recurrence: every iterate is the fractional part of start + n * alpha
    let steps = k.q(2000usize, 20000);
    let (st, al) = ([0.0, 0.5, 0.999, 0.1, 1e-12], [0.6180339887498949, 0.5, 0.41421356237309515, 0.999999, 0.25, 1.7, 3.0]);
    k.family("quasirandom sequences", (st.len() * (al.len() + 1)) as u64, |i, x| {
        let mut d = Dec(i);
        let s = *d.of(&st);
        let q = d.take(al.len() + 1);
        let a = if q < al.len() { al[q] } else { (5f64.sqrt() - 1.0) / 2.0 };
        let mut c = s;
        x.out("sequence");
        x.note(|| format!("from {} by {}", s, a));
        for n in 1..=steps {
            let p = c;
            c = if q < al.len() { MathUtil::quasirandom_curr_alpha(c, a) } else { MathUtil::quasirandom_curr(c) };
            x.t(1);
            ensure!((0.0..1.0).contains(&c), "step {} from {} by {} = {} is not in [0,1)", n, s, a, c);
            let e = (p + a - c).rem_euclid(1.0);
            ensure!(e < 4e-15 || e > 1.0 - 4e-15, "step {} by {}: {} follows {}", n, a, c, p);
        }
        Ok(())
    });
    let n = k.q(300u64, 3000);
    k.family("longer shuffles", n + geosmc::geo::HUGE.len() as u64, |i, x| {
        let i = if i < n { i as usize } else { geosmc::geo::HUGE[(i - n) as usize] };
        let v = MathUtil::shuffle(i);
        x.t(1);
        x.out("permutation");
        ensure!(valid(&v, i), "shuffle({}) = {:?} is no permutation", i, v);
        Ok(())
    });
    #[cfg(feature = "controlled")]
    {
        let n = k.q(9u64, 11);
        k.family("shuffles over all outcomes of every random choice", n, |i, x| all_shuffles(i as usize, x));
        let mut sizes: Vec<usize> = (2..k.q(70, 130)).collect();
        sizes.extend([127, 128, 129, 255, 256, 257, 300, 513, 1025]);
        k.family("large shuffles, one choice varied", sizes.len() as u64, |i, x| big_shuffles(sizes[i as usize], x));
    }
    k.finish()
}
