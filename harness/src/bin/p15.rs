// P15 Precision models round predictably
use geos_rs::verif::*;
use geosmc::{ensure, exact::*, mc::*, num::*};

#[derive(Clone, Copy, Debug, PartialEq)]
enum K { Float, Single, Scale(f64), Grid(f64) }
const SCALES: [f64; 18] = [1.0, 10.0, 100.0, 1000.0, 1e6, 0.1, 0.01, 2.0, 4.0, 3.0, 7.5, 0.5, 1e-3, 0.3, 12345.0, 1e9, 1024.0, 100000.0];
const GRIDS: [f64; 12] = [1.0, 10.0, 100.0, 0.5, 0.1, 0.25, 5.0, 1000.0, 3.0, 0.001, 2.5, 1e6];
fn kinds() -> Vec<K> { let mut v = vec![K::Float, K::Single]; v.extend(SCALES.map(K::Scale)); v.extend(GRIDS.map(K::Grid)); v }
/// every way to build the model
fn build(k: K) -> Vec<PrecisionModel> {
    let mut v = match k {
        K::Float => vec![PrecisionModel::default(), PrecisionModel::new_with_type(PrecisionModelType::Floating)],
        K::Single => vec![PrecisionModel::new_with_type(PrecisionModelType::FloatingSingle)],
        K::Scale(s) => {
            let mut a = vec![PrecisionModel::new_with_scale(s)];
            for o in [7.0, -7.0, 1.0] { let mut p = PrecisionModel::new_with_scale(o); p.set_scale(s); a.push(p); }
            if s == 1.0 { a.push(PrecisionModel::new_with_type(PrecisionModelType::Fixed)); }
            a
        }
        K::Grid(g) => {
            let mut a = vec![PrecisionModel::new_with_scale(-g)];
            for o in [7.0, -7.0] { let mut p = PrecisionModel::new_with_scale(o); p.set_scale(-g); a.push(p); }
            a
        }
    };
    for i in 0..v.len() { v.push(PrecisionModel::from_precision_model(v[i])); }
    v
}
/// value * scale (or value / grid) exactly
fn scaled(k: K, v: f64) -> Rat {
    match k { K::Scale(s) => Rat::of(v).mul(&Rat::of(s)), K::Grid(g) => Rat::of(v).div(&Rat::of(g)), _ => unreachable!() }
}
fn unscaled(k: K, n: &Dy) -> Rat {
    let n = Rat::dy(n.clone());
    match k { K::Scale(s) => n.div(&Rat::of(s)), K::Grid(g) => n.mul(&Rat::of(g)), _ => unreachable!() }
}
fn rfloor(r: &Rat) -> Dy {
    // floor of n/d: start from the double quotient and correct
    let mut q = Dy::new(r.f64()).floor();
    loop {
        let lo = Rat::dy(q.clone());
        if lo > *r { q = q.sub(&Dy::int(1)); continue; }
        if Rat::dy(q.add(&Dy::int(1))) <= *r { q = q.add(&Dy::int(1)); continue; }
        return q;
    }
}
fn one(k: K, p: &mut PrecisionModel, v: f64, x: &mut Ctx) -> Res {
    let g = p.make_precise(v);
    x.t(1);
    if v.is_nan() { x.out("NaN"); ensure!(g.is_nan(), "{:?} makes NaN {}", k, g); return Ok(()); }
    if v.is_infinite() { x.out("infinite"); ensure!(g == v, "{:?} makes {} {}", k, v, g); return Ok(()); }
    match k {
        K::Float => { x.out("floating"); ensure!(g.to_bits() == v.to_bits(), "a floating model makes {} {}", v, g); }
        K::Single => {
            if v.abs() > 3.4e38 { return x.skip(); }
            x.out("single");
            let f = g as f32;
            ensure!(f as f64 == g, "{} becomes {}, which is not a single-precision value", v, g);
            let b = f.to_bits() as i32;
            let (up, dn) = if f == 0.0 { (f32::from_bits(1), -f32::from_bits(1)) } else { (f32::from_bits((b + 1) as u32), f32::from_bits((b - 1) as u32)) };
            let d = |a: f32| Dy::new(a as f64).sub(&Dy::new(v)).abs();
            ensure!(d(f) <= d(up) && d(f) <= d(dn), "{} becomes {} but {} or {} is nearer", v, g, up, dn);
            if d(f) == d(up) || d(f) == d(dn) { ensure!(b & 1 == 0, "the tie {} becomes the odd single {}", v, g); }
        }
        _ => {
            let r = scaled(k, v);
            if r.f64().abs() > 2f64.powi(51) { return x.skip(); }
            let h = r.add(&Rat::of(0.5));
            let n = rfloor(&h);
            // how far from a tie: the scaled value is computed in doubles
            let frac = h.sub(&Rat::dy(n.clone())).f64();
            let fuzz = 4.0 * f64::EPSILON * (r.f64().abs() + 0.5);
            let exact_tie = frac == 0.0;
            let scaled_exact = { let m = match k { K::Scale(s) => v * s, K::Grid(s) => v / s, _ => 0.0 }; Rat::of(m) == r };
            let mut cand = vec![n.clone()];
            if !(exact_tie && scaled_exact) {
                if frac < fuzz { cand.push(n.sub(&Dy::int(1))); }
                if frac > 1.0 - fuzz { cand.push(n.add(&Dy::int(1))); }
            }
            x.out(if exact_tie { "tie" } else { "no tie" });
            let ok = cand.iter().any(|n| { let w = unscaled(k, n).f64(); (g - w).abs() <= (ulp(w.abs(), 1) - w.abs()) });
            ensure!(ok, "{:?} makes {} (scaled {}) {} but the grid value is {}", k, v, r.f64(), g, unscaled(k, &n).f64());
            // where the grid value is a double it is hit exactly
            let ok = cand.iter().any(|n| { let e = unscaled(k, n); let w = e.f64(); Rat::of(w) != e || g == w });
            ensure!(ok, "{:?} makes {} {} but the grid value is exactly {}", k, v, g, unscaled(k, &n).f64());
        }
    }
    // idempotent
    let g2 = p.make_precise(g);
    x.t(1);
    ensure!(g2 == g, "{:?} makes {} {} and that {}", k, v, g, g2);
    Ok(())
}

fn main() {
    let mut k = Check::new("P15");
    k.assume("fixed models: the scaled value stays below 2^51; scale or grid size positive and finite; a value within 4 ulp of a tie may go either way unless scaling it is exact");
    let ks = kinds();
    let nk = ks.len();
    // multiples of an eighth of a grid cell, and their neighbours
    let range = k.q(2000i64, 60000);
    k.family("cells", nk as u64 * (2 * range as u64 + 1) * 5, |i, x| {
        let mut d = Dec(i);
        let kd = *d.of(&ks);
        let t = *d.of(&[0i64, 1, -1, 3, -3]);
        let n = d.take(2 * range as usize + 1) as i64 - range;
        let u = n as f64 / 8.0;
        let v = match kd { K::Scale(s) => u / s, K::Grid(g) => u * g, _ => u * 0.3 };
        let mut p = build(kd)[0];
        x.note(|| format!("{:?} on {}", kd, ulp(v, t)));
        one(kd, &mut p, ulp(v, t), x)
    });
    let mut vals: Vec<f64> = vec![0.0, 1e-300, 5e-324, 0.1, 0.2, 0.3, 0.49999999999999994, 0.5, 0.7, 1.0, 1.005, 1.015, 1.115, 1.5, 2.5, 0.285, 2.675, 10.075, 1234.56789, 1e5, 123456.5, 1e6, 2097151.5, 1e7, 16777216.0, 16777217.0, 16777218.0, 16777219.0, 33554434.0, 1e9, 4294967296.5, 1e12, 1e15, 4503599627370495.5, 4503599627370496.0, 9007199254740991.0, 1e20, 1e38, 1e100, 1e308, 0.1f32 as f64, 1e-45, 1e-40, 1.1754943508222875e-38, f64::INFINITY, 33.5, 0.05, 0.15, 0.25, 0.35, 0.45, 0.005, 0.015, 0.025, 50.0, 150.0, 250.0, 49.999999999999993, 1.2500000000000002];
    let m = vals.len();
    for i in 0..m { if vals[i].is_finite() { for t in [1, -1, 2] { let v = ulp(vals[i], t); vals.push(v); } } }
    for i in 0..vals.len() { vals.push(-vals[i]); }
    vals.push(f64::NAN);
    k.family("values by model and way of building it", (nk * vals.len()) as u64, |i, x| {
        let mut d = Dec(i);
        let kd = *d.of(&ks);
        let v = *d.of(&vals);
        let mut first = None;
        for mut p in build(kd) {
            one(kd, &mut p, v, x)?;
            let g = p.make_precise(v);
            if let Some(f) = first { ensure!(same(f, g), "two {:?} models make {} {} and {}", kd, v, f, g); }
            first = Some(g);
            let mut c = Coordinate::new_xyzm(v, -v, v, v);
            let w = p.make_precise(-v);
            p.make_precise_coordinate(&mut c);
            ensure!(same(c.x, g) && same(c.y, w) && same(c.z, v) && same(c.m, v), "{:?} makes the coordinate {} {} {} {} of {}", kd, c.x, c.y, c.z, c.m, v);
            x.t(3);
        }
        Ok(())
    });
    let mut sorted: Vec<f64> = vals.iter().copied().filter(|v| v.is_finite() && v.abs() < 1e4).collect();
    for n in -k.q(4000i64, 40000)..k.q(4000, 40000) { for t in [0, 1, -1] { sorted.push(ulp(n as f64 * 0.0125, t)); } }
    sorted.sort_by(|a, b| a.partial_cmp(b).unwrap());
    k.family("monotone", nk as u64, |i, x| {
        let kd = ks[i as usize];
        let mut p = build(kd)[0];
        let mut last = -f64::INFINITY;
        for v in &sorted {
            let g = p.make_precise(*v);
            ensure!(g >= last, "{:?} is not monotone: {} becomes {} but something smaller became {}", kd, v, g, last);
            last = g;
            x.t(1);
        }
        Ok(())
    });
    // every decimal and binary scale and grid size, cell by cell around the ties
    let mut wide: Vec<K> = vec![];
    for e in -15..=15 { let v: f64 = format!("1e{}", e).parse().unwrap(); for m in [1.0, 2.5, 3.0] { wide.push(K::Scale(m * v)); wide.push(K::Grid(m * v)); } }
    for e in -60..=60 { wide.push(K::Scale(2f64.powi(e))); wide.push(K::Grid(2f64.powi(e))); }
    let reach = k.q(40i64, 400);
    let mut steps: Vec<i64> = (-reach..=reach).collect();
    for e in 6..=50 { for t in [-4i64, -1, 0, 1, 4, 5, 12] { steps.push((1i64 << e) + t); steps.push(-(1i64 << e) + t); } }
    k.family("every scale and grid size", (wide.len() * steps.len()) as u64 * 3, |i, x| {
        let mut d = Dec(i);
        let kd = *d.of(&wide);
        let u = *d.of(&steps) as f64 / 8.0;
        let t = *d.of(&[0i64, 1, -1]);
        let v = ulp(match kd { K::Scale(s) => u / s, K::Grid(g) => u * g, _ => u }, t);
        let all = build(kd);
        let mut p = all[i as usize % all.len()];
        x.note(|| format!("{:?} on {}", kd, v));
        one(kd, &mut p, v, x)
    });
    // single precision: every exponent, around every kind of bit pattern
    let mb: Vec<u64> = vec![0, 1, 0x0fff_ffff, 0x1000_0000, 0x1000_0001, 0x1fff_ffff, 0x2000_0000, 0x3000_0000, 0x2fff_ffff, 0x3000_0001, 0x5000_0000, 0xf_ffff_f000_0000, 0xf_ffff_efff_ffff, 0xf_ffff_ffff_ffff, 0x8_0000_1000_0000, 0x8_0000_3000_0000, 0x5_5555_5555_5555];
    k.family("single precision at every exponent", 2046 * mb.len() as u64 * 2 * 3, |i, x| {
        let mut d = Dec(i);
        let t = *d.of(&[0i64, 1, -1]);
        let s = if d.bit() { 1.0 } else { -1.0 };
        let m = *d.of(&mb);
        let v = s * ulp(f64::from_bits((d.take(2046) as u64) << 52 | m), t);
        if v.is_nan() { return x.skip(); }
        x.note(|| format!("{:e}", v));
        let mut p = build(K::Single)[i as usize % 2];
        one(K::Single, &mut p, v, x)?;
        let mut p = build(K::Float)[i as usize % 4];
        one(K::Float, &mut p, v, x)
    });
    // descriptive queries
    let digits = |kd: K| -> Vec<i32> { match kd {
        K::Float => vec![16], K::Single => vec![6],
        K::Scale(_) | K::Grid(_) => {
            let s = match kd { K::Scale(s) => Rat::of(s), K::Grid(g) => Rat::of(1.0).div(&Rat::of(g)), _ => unreachable!() };
            // least c with 10^c >= scale
            let ten = |c: i32| -> Rat { let mut r = Rat::of(1.0); for _ in 0..c.abs() { r = if c > 0 { r.mul(&Rat::of(10.0)) } else { r.div(&Rat::of(10.0)) }; } r };
            let mut c = -20;
            while ten(c) < s { c += 1; }
            // the scale itself may be a rounded power of ten
            let mut v = vec![1 + c];
            for j in [c - 1, c] { let f = ten(j).f64(); if (s.f64() - f).abs() <= 2.0 * f64::EPSILON * f && (s != Rat::of(f) || Rat::of(f) != ten(j)) { v.push(1 + j); v.push(2 + j); } }
            v
        } } };
    k.family("descriptions", nk as u64, |i, x| {
        let kd = ks[i as usize];
        for p in build(kd) {
            let ty = match kd { K::Float => PrecisionModelType::Floating, K::Single => PrecisionModelType::FloatingSingle, _ => PrecisionModelType::Fixed };
            ensure!(p.get_type() == ty && p.is_floating() == (ty != PrecisionModelType::Fixed), "type of {:?}", kd);
            match kd {
                K::Scale(s) => ensure!(p.get_scale() == s && close(p.grid_size(), 1.0 / s, 1e-15, 0.0), "{:?} has scale {} and grid {}", kd, p.get_scale(), p.grid_size()),
                K::Grid(g) => ensure!(close(p.get_scale(), 1.0 / g, 1e-15, 0.0) && p.grid_size() == g, "{:?} has scale {} and grid {}", kd, p.get_scale(), p.grid_size()),
                _ => ensure!(p.grid_size().is_nan(), "{:?} has grid {}", kd, p.grid_size()),
            }
            let w = digits(kd);
            ensure!(w.contains(&p.get_maximum_significant_digits()), "{:?} has {} significant digits, not {:?}", kd, p.get_maximum_significant_digits(), w);
            x.t(5);
        }
        Ok(())
    });
    k.family("order and equality of models", (nk * nk) as u64, |i, x| {
        let mut d = Dec(i);
        let (a, b) = (*d.of(&ks), *d.of(&ks));
        for p in build(a) { for q in build(b) {
            let (m, n) = (p.get_maximum_significant_digits(), q.get_maximum_significant_digits());
            let w = (m > n) as i32 - (m < n) as i32;
            ensure!(p.compare_to(&q) == w, "{:?} compared to {:?} = {} but {} and {} digits", a, b, p.compare_to(&q), m, n);
            let key = |k: K| match k { K::Float => (0, 0.0), K::Single => (1, 0.0), K::Scale(s) => (2, s), K::Grid(g) => (2, 1.0 / g) };
            let w = key(a) == key(b);
            x.out(if w { "equal models" } else { "different models" });
            ensure!(p.equals(q) == w, "{:?} equals {:?} = {}", a, b, p.equals(q));
            x.t(2);
        } }
        Ok(())
    });
    k.finish()
}
