// P14 Double-double arithmetic keeps about 106 bits and exact signs
use geos_rs::verif::*;
use geosmc::{ensure, exact::*, mc::*, num::*};

/// high and low word of a double-double (the words are private: they are shown by dump)
fn words(d: &DD) -> (f64, f64) {
    let s = d.dump();
    let p: Option<(f64, f64)> = s.strip_prefix("DD<").and_then(|s| s.strip_suffix('>')).and_then(|s| s.split_once(", ")).and_then(|(a, b)| Some((a.parse().ok()?, b.parse().ok()?)));
    p.unwrap_or_else(|| { let h = d.double_value(); (h, d.subtract_f64(h).double_value()) })
}
fn val(d: &DD) -> Option<Dy> { let (h, l) = words(d); if h.is_finite() && l.is_finite() { Some(Dy::new(h).add(&Dy::new(l))) } else { None } }
fn bits(d: &DD) -> (u64, u64) { let (h, l) = words(d); (h.to_bits(), l.to_bits()) }
type W = (f64, f64);
fn dd(w: W) -> DD { DD::new_hi_lo(w.0, w.1) }
fn ex(w: W) -> Dy { Dy::new(w.0).add(&Dy::new(w.1)) }
fn sg(o: std::cmp::Ordering) -> i32 { o as i32 }

fn scalars(thorough: bool) -> Vec<f64> {
    let mut b = vec![1.0, 3.0, 0.1, 1.0 / 3.0, 134217729.0, 9007199254740991.0, 1.0 + f64::EPSILON, 1.0 - f64::EPSILON / 2.0, 4503599627370496.5, 1e15, 0.5, 123456.789, 1e-15];
    if thorough { b.extend([7.0, 10.0, 2.0, 1e100, 1e-100, 2f64.powi(90) + 2f64.powi(60), 0.7, 1.5, 67108865.0, 2.5, 1e22, 3e-7, 9007199254740993.0, 2f64.powi(-40), 1e5 + 0.5]); }
    let mut v = vec![0.0];
    for x in b { v.push(x); v.push(-x); }
    v
}
/// normalised double-doubles over the scalars
fn values(thorough: bool) -> Vec<W> {
    let mut v: Vec<W> = vec![];
    for h in scalars(thorough) {
        if h == 0.0 { v.push((0.0, 0.0)); v.push((-0.0, 0.0)); continue; }
        let u = (ulp(h, 1) - h).abs();
        for l in [0.0, u * 0.5, u * 0.375, u * 1e-3, u * 2f64.powi(-60), u * 0.25] {
            for s in [1.0, -1.0] {
                if l == 0.0 && s < 0.0 { continue; }
                let w = (h, s * l);
                if w.0 + w.1 == w.0 { v.push(w); }
            }
        }
        // an integer low word
        if h.abs() > 1e16 || h == 9007199254740993.0 { v.push((h, 1.0)); v.push((h, -1.0)); }
    }
    v.retain(|w| w.0 + w.1 == w.0);
    v
}
fn near(g: &DD, exact: &Dy, scale: &Dy, lim: i32, what: &str) -> Res {
    match val(g) {
        None => Err(format!("{} is {}, should be about {}", what, g.dump(), exact.f64())),
        Some(v) => {
            ensure!(v.sub(exact).abs() <= scale.abs().scale2(-lim), "{} = {} differs from the exact {} by {} (operand scale {})", what, g.dump(), exact.f64(), v.sub(exact).f64(), scale.f64());
            let (h, l) = words(g);
            ensure!(h + l == h, "{} = {} is not normalised", what, g.dump());
            ensure!(g.double_value() == v.f64(), "{} = {} reads as the double {}", what, g.dump(), g.double_value());
            Ok(())
        }
    }
}
fn in_range(d: &Dy) -> bool { let f = d.f64().abs(); d.is_zero() || (f > 1e-200 && f < 1e250) }

/// every binary operation on a and b; returns the computed results
fn binary(a: W, b: W, x: &mut Ctx) -> Result<Vec<DD>, String> {
    let (da, db) = (dd(a), dd(b));
    let (ea, eb) = (ex(a), ex(b));
    let (ka, kb) = (bits(&da), bits(&db));
    let sc = ea.abs().max(eb.abs());
    let mut out = vec![];
    let mut go = |g: DD, e: &Dy, s: &Dy, n: &str| -> Res { near(&g, e, s, 100, &format!("{} of {:?} and {:?}", n, a, b))?; out.push(g); Ok(()) };
    let sum = ea.add(&eb);
    let dif = ea.sub(&eb);
    let prod = ea.mul(&eb);
    go(da.add_dd(&db), &sum, &sc, "add")?;
    go(da.subtract_dd(&db), &dif, &sc, "subtract")?;
    let mut m = da.copy_self(); m.self_add_dd(&db); go(m, &sum, &sc, "self add")?;
    let mut m = DD::copy(&da); m.self_subtract_dd(&db); go(m, &dif, &sc, "self subtract")?;
    let mut m = DD::new_from_dd(&da); m.self_add_hi_lo(b.0, b.1); go(m, &sum, &sc, "self add hi lo")?;
    if b.1 == 0.0 {
        go(da.add_f64(b.0), &sum, &sc, "add double")?;
        go(da.subtract_f64(b.0), &dif, &sc, "subtract double")?;
        let mut m = da; m.self_add_f64(b.0); go(m, &sum, &sc, "self add double")?;
        let mut m = da; m.self_subtract_f64(b.0); go(m, &dif, &sc, "self subtract double")?;
    }
    x.t(7);
    if in_range(&prod) {
        go(da.multiply_dd(&db), &prod, &prod, "multiply")?;
        let mut m = da; m.self_multiply_dd(&db); go(m, &prod, &prod, "self multiply")?;
        let mut m = da; m.self_multiply_hi_lo(b.0, b.1); go(m, &prod, &prod, "self multiply hi lo")?;
        if b.1 == 0.0 {
            go(da.multiply_f64(b.0), &prod, &prod, "multiply double")?;
            let mut m = da; m.self_multiply_f64(b.0); go(m, &prod, &prod, "self multiply double")?;
        }
        x.t(5);
    }
    if !eb.is_zero() && in_range(&Dy::new(ea.f64() / eb.f64())) {
        // q*b = a up to rounding
        let mut chk = |g: DD, n: &str| -> Res {
            let v = match val(&g) { Some(v) => v, None => return Err(format!("{} of {:?} and {:?} is {}", n, a, b, g.dump())) };
            ensure!(v.mul(&eb).sub(&ea).abs() <= ea.abs().scale2(-100), "{} of {:?} and {:?} = {} is off by {} relative", n, a, b, g.dump(), v.mul(&eb).sub(&ea).f64() / ea.f64());
            let (h, l) = words(&g);
            ensure!(h + l == h, "{} of {:?} and {:?} = {} is not normalised", n, a, b, g.dump());
            out.push(g);
            Ok(())
        };
        chk(da.divide_dd(&db), "divide")?;
        let mut m = da; m.self_divide_dd(&db); chk(m, "self divide")?;
        let mut m = da; m.self_divide_hi_lo(b.0, b.1); chk(m, "self divide hi lo")?;
        if b.1 == 0.0 {
            chk(da.divide_f64(b.0), "divide double")?;
            let mut m = da; m.self_divide_f64(b.0); chk(m, "self divide double")?;
        }
        x.t(5);
    }
    // exact comparisons
    let c = sg(ea.cmp(&eb));
    x.out(match c { -1 => "less", 0 => "equal", _ => "greater" });
    ensure!(da.compare_to(&db) == c, "{:?} compared to {:?} = {} but exactly {}", a, b, da.compare_to(&db), c);
    ensure!(da.gt(&db) == (c > 0) && da.ge(&db) == (c >= 0) && da.lt(&db) == (c < 0) && da.le(&db) == (c <= 0) && da.equals(&db) == (c == 0), "the relations of {:?} and {:?} disagree with the exact order {}", a, b, c);
    ensure!(val(&da.min(&db)) == Some(ea.clone().min(eb.clone())), "min of {:?} and {:?} = {}", a, b, da.min(&db).dump());
    ensure!(val(&da.max(&db)) == Some(ea.clone().max(eb.clone())), "max of {:?} and {:?} = {}", a, b, da.max(&db).dump());
    x.t(8);
    ensure!(bits(&da) == ka && bits(&db) == kb, "an operand changed: {:?} {:?} became {} {}", a, b, da.dump(), db.dump());
    Ok(out)
}

fn unary(a: W, x: &mut Ctx) -> Res {
    let mut da = dd(a);
    let e = ex(a);
    let k = bits(&da);
    let s = e.sign();
    x.out(match s { 0 => "zero", 1 => "positive", _ => "negative" });
    ensure!(da.signum() == s && da.is_zero() == (s == 0) && da.is_negative() == (s < 0) && da.is_positive() == (s > 0) && !da.is_nan(), "sign of {:?} is {} but reported {} zero {} negative {} positive {}", a, s, da.signum(), da.is_zero(), da.is_negative(), da.is_positive());
    let same_v = |g: &DD, w: &Dy, n: &str| -> Res {
        ensure!(val(g).as_ref() == Some(w), "{} of {:?} = {} is not {}", n, a, g.dump(), w.f64());
        // the result orders like its value: it can be used in further comparisons
        ensure!(g.signum() == w.sign() && g.is_zero() == w.is_zero(), "{} of {:?} = {} has the sign {}", n, a, g.dump(), g.signum());
        ensure!(g.double_value() == w.f64(), "{} of {:?} = {} reads as the double {}", n, a, g.dump(), g.double_value());
        let (h, l) = words(g);
        ensure!(h + l == h, "{} of {:?} = {} is not normalised", n, a, g.dump());
        Ok(())
    };
    same_v(&da.negate(), &e.neg(), "negation")?;
    same_v(&da.abs(), &e.abs(), "absolute value")?;
    let fl = e.floor();
    let ce = e.neg().floor().neg();
    same_v(&da.floor(), &fl, "floor")?;
    same_v(&da.ceil(), &ce, "ceiling")?;
    same_v(&da.trunc(), if s > 0 { &fl } else { &ce }, "truncation")?;
    // rounding adds a half in double-double arithmetic: exact unless the sum is within rounding error of an integer
    let h = e.add(&Dy::new(0.5));
    let r = da.rint();
    let gap = { let m = h.add(&Dy::new(0.5)).floor(); h.sub(&m).abs() };
    if gap.is_zero() || gap > e.abs().scale2(-104) { same_v(&r, &h.floor(), "rounding")?; }
    else { let v = val(&r); ensure!(v.as_ref().map(|v| v.sub(&h.floor()).abs() <= Dy::int(1) && v.floor() == *v).unwrap_or(false), "rounding of {:?} = {}", a, r.dump()); }
    same_v(&da.copy_self(), &e, "copy")?;
    if a.1 == 0.0 && a.0.abs() < 2e9 && a.0.fract() == 0.0 { ensure!(da.int_value() == a.0 as i32, "int value of {:?} = {}", a, da.int_value()); }
    x.t(14);
    if in_range(&e.sq()) {
        for (g, n) in [(da.sqr(), "square"), ({ let mut m = da; m.self_sqr(); m }, "self square")] { near(&g, &e.sq(), &e.sq(), 100, &format!("{} of {:?}", n, a))?; }
        if a.1 == 0.0 { near(&da.sqr_f64(a.0), &e.sq(), &e.sq(), 100, "square of a double")?; near(&dd((3.0, 0.0)).sqr_f64(a.0), &e.sq(), &e.sq(), 100, "square of a double")?; }
        x.t(2);
    }
    let mut roots = vec![(da.sqrt_dd(), "square root")];
    if a.1 == 0.0 { roots.push((dd((5.0, 0.0)).sqrt_f64(a.0), "square root of a double")); }
    for (r, n) in roots {
        if s < 0 { ensure!(r.is_nan(), "{} of {:?} = {}", n, a, r.dump()); continue; }
        let v = match val(&r) { Some(v) => v, None => return Err(format!("{} of {:?} = {}", n, a, r.dump())) };
        ensure!(v.sign() >= 0 && v.sq().sub(&e).abs() <= e.scale2(-99), "{} of {:?} = {} is off by {} relative", n, a, r.dump(), v.sq().sub(&e).f64() / e.f64());
        let (h, l) = words(&r);
        ensure!(h + l == h, "{} of {:?} = {} is not normalised", n, a, r.dump());
    }
    if s != 0 {
        let r = da.reciprocal();
        let v = match val(&r) { Some(v) => v, None => return Err(format!("reciprocal of {:?} = {}", a, r.dump())) };
        ensure!(v.mul(&e).sub(&Dy::int(1)).abs() <= Dy::int(1).scale2(-100), "reciprocal of {:?} = {} is off by {}", a, r.dump(), v.mul(&e).sub(&Dy::int(1)).f64());
    }
    x.t(3);
    ensure!(bits(&da) == k, "an operation on {:?} changed it to {}", a, da.dump());
    Ok(())
}

fn main() {
    let mut k = Check::new("P14");
    k.assume("no result, nor the last bit of one, leaves the range of doubles; the words of a double-double are read through dump()");
    let v = values(k.thorough);
    let n = v.len();
    k.family("unary", n as u64, |i, x| { x.note(|| format!("{:?}", v[i as usize])); unary(v[i as usize], x) });
    // integers and half integers of every size, with low words on both sides of the integer
    let es = k.q(60, 300);
    k.family("integer part", es as u64 * 9 * 13 * 2, |i, x| {
        let mut d = Dec(i);
        let e = d.take(es as usize) as i32;
        let m = 1.0 + *d.of(&[0.0, 0.5, 0.25, 0.75, f64::EPSILON, 1.0 - f64::EPSILON, 2f64.powi(-20), 2f64.powi(-51), 0.875]);
        let l = *d.of(&[0.0, 1.0, -1.0, 0.5, -0.5, 1e-3, -1e-3, 1e-30, -1e-30, 2.0, -2.0, 2.5, -2.5]);
        let s = if d.bit() { 1.0 } else { -1.0 };
        let h = s * m * 2f64.powi(e - 3);
        // the low word is at the scale of the last bit, or an integer or half of it
        for lo in [l * (ulp(h.abs(), 1) - h.abs()) * 0.5, l] { if h + lo == h { unary((h, lo), x)?; } }
        Ok(())
    });
    k.family("binary", (n * n) as u64, |i, x| {
        let mut d = Dec(i);
        let (a, b) = (*d.of(&v), *d.of(&v));
        x.note(|| format!("{:?} op {:?}", a, b));
        binary(a, b, x).map(|_| ())
    });
    // chains: operations on computed, not constructed, values
    let small: Vec<W> = v.iter().copied().enumerate().filter(|(i, w)| i % k.q(9, 5) == 0 || w.0 == 0.0).map(|(_, w)| w).collect();
    let m = small.len();
    k.family("chains of two", (m * m) as u64, |i, x| {
        let mut d = Dec(i);
        let (a, b) = (*d.of(&small), *d.of(&small));
        for r in binary(a, b, x)? {
            let w = words(&r);
            if !in_range(&ex(w)) { continue; }
            unary(w, x)?;
            for c in [(3.0, 0.0), (-0.1, 2e-18), a, b] { if c.0.is_finite() { binary(w, c, x)?; binary(c, w, x)?; } }
        }
        Ok(())
    });
    let ps: Vec<W> = v.iter().copied().filter(|w| w.0 != 0.0 && w.0.abs() < 1e20 && w.0.abs() > 1e-20).collect();
    let emax = 12i32;
    k.family("integer powers", ps.len() as u64 * (2 * emax as u64 + 1), |i, x| {
        let mut d = Dec(i);
        let a = *d.of(&ps);
        let p = d.take(2 * emax as usize + 1) as i32 - emax;
        let e = ex(a);
        let mut w = Dy::int(1);
        for _ in 0..p.abs() { w = w.mul(&e); }
        let g = dd(a).pow(p);
        x.t(1);
        x.out(if p < 0 { "negative power" } else { "power" });
        let g = match val(&g) { Some(v) => v, None => return Err(format!("{:?} to the power {} = {}", a, p, g.dump())) };
        let err = if p < 0 { g.mul(&w).sub(&Dy::int(1)) } else { g.sub(&w) };
        let sc = if p < 0 { Dy::int(1) } else { w.abs() };
        ensure!(err.abs() <= sc.scale2(-95), "{:?} to the power {} is off by {} relative", a, p, err.f64() / sc.f64());
        Ok(())
    });
    // every exponent up to a bound, and exponents around the powers of two up to the largest integers: bases near one
    // for which the exact power is in range, and bases whose powers are exact
    let pb: Vec<W> = vec![(1.0 + f64::EPSILON, 0.0), (1.0 - f64::EPSILON / 2.0, 3e-33), (1.1, 4e-17), (-0.9, -1e-18), (0.7, 0.0), (-1.25, 1e-17), (1.0, 2f64.powi(-80)), (4.0 / 3.0, -7e-17)];
    let ne = k.q(130usize, 700);
    k.family("large integer powers", (pb.len() * (2 * ne + 1)) as u64, |i, x| {
        let mut d = Dec(i);
        let a = *d.of(&pb);
        let p = d.take(2 * ne + 1) as i32 - ne as i32;
        let (mut w, mut b, mut n) = (Dy::int(1), ex(a), p.unsigned_abs());
        while n > 0 { if n & 1 == 1 { w = w.mul(&b); } n >>= 1; if n > 0 { b = b.sq(); } }
        let g = dd(a).pow(p);
        x.t(1);
        x.out(if p < 0 { "negative power" } else { "power" });
        let g = match val(&g) { Some(v) => v, None => return Err(format!("{:?} to the power {} = {}", a, p, g.dump())) };
        let err = if p < 0 { g.mul(&w).sub(&Dy::int(1)) } else { g.sub(&w) };
        let sc = if p < 0 { Dy::int(1) } else { w.abs() };
        ensure!(err.abs() <= sc.scale2(-95).add(&sc.mul(&Dy::new(p.abs() as f64)).scale2(-100)), "{:?} to the power {} is off by {} relative", a, p, err.f64() / sc.f64());
        Ok(())
    });
    let be: Vec<i32> = (0..=31).flat_map(|e| (-2..=2i64).flat_map(move |o| [(1i64 << e) + o, -(1i64 << e) - o])).filter_map(|v| i32::try_from(v).ok()).collect();
    // the same exponents for bases so near to one that the power is in range (exact to far beyond double-double: 200 bits are kept)
    let keep = |v: Dy| { let f = v.f64().abs(); if f == 0.0 { v } else { let s = 200 - f.log2().floor() as i32; v.scale2(s).floor().scale2(-s) } };
    let nb: Vec<W> = (1..=45).step_by(k.q(4, 1)).flat_map(|j| [(1.0 + 2f64.powi(-j), 0.0), (1.0 - 2f64.powi(-j), 2f64.powi(-j - 60)), (-1.0 - 1e-3 * 2f64.powi(-j), 1e-18)]).collect();
    k.family("powers of bases next to one", (be.len() * nb.len()) as u64, |i, x| {
        let mut d = Dec(i);
        let (p, a) = (*d.of(&be), *d.of(&nb));
        if (p as f64 * a.0.abs().ln()).abs() > 400.0 { return x.skip(); }
        let (mut w, mut b, mut n) = (Dy::int(1), ex(a), p.unsigned_abs());
        while n > 0 { if n & 1 == 1 { w = keep(w.mul(&b)); } n >>= 1; if n > 0 { b = keep(b.sq()); } }
        let g = dd(a).pow(p);
        x.t(1);
        x.out(if p < 0 { "negative power" } else { "power" });
        let g = match val(&g) { Some(v) => v, None => return Err(format!("{:?} to the power {} = {}", a, p, g.dump())) };
        let err = if p < 0 { g.mul(&w).sub(&Dy::int(1)) } else { g.sub(&w) };
        let sc = if p < 0 { Dy::int(1) } else { w.abs() };
        ensure!(err.abs() <= sc.scale2(-95).add(&sc.mul(&Dy::new((p as f64).abs())).scale2(-100)), "{:?} to the power {} is off by {} relative", a, p, err.f64() / sc.f64());
        Ok(())
    });
    k.family("powers of one, minus one and two", (be.len() * 6) as u64, |i, x| {
        let mut d = Dec(i);
        let p = *d.of(&be);
        let b: f64 = *d.of(&[1.0, -1.0, 2.0, 0.5, -2.0, -0.5]);
        let e = if b.abs() == 1.0 { 0 } else if b.abs() == 2.0 { p as i64 } else { -(p as i64) };
        if e.abs() > 1000 { return x.skip(); }
        let w = 2f64.powi(e as i32) * if b < 0.0 && p % 2 != 0 { -1.0 } else { 1.0 };
        let g = dd((b, 0.0)).pow(p);
        x.t(1);
        x.out(if p < 0 { "negative power" } else { "power" });
        ensure!(words(&g) == (w, 0.0), "{} to the power {} = {} not {}", b, p, g.dump(), w);
        Ok(())
    });
    let dm: Vec<W> = v.iter().copied().enumerate().filter(|(i, w)| i % k.q(12, 8) == 1 || w.0 == 0.0 || w == &(3.0, 0.0)).map(|(_, w)| w).filter(|w| w.0.abs() < 1e60 && (w.0 == 0.0 || w.0.abs() > 1e-60)).collect();
    k.family("determinants", pow(dm.len(), 4), |i, x| {
        let mut d = Dec(i);
        let q = [*d.of(&dm), *d.of(&dm), *d.of(&dm), *d.of(&dm)];
        let e: Vec<Dy> = q.iter().map(|w| ex(*w)).collect();
        let (l, r) = (e[0].mul(&e[3]), e[1].mul(&e[2]));
        let w = l.sub(&r);
        let sc = l.abs().max(r.abs());
        x.t(2);
        x.out(if w.is_zero() { "zero determinant" } else { "determinant" });
        near(&DD::determinant_xy_dd(&dd(q[0]), &dd(q[1]), &dd(q[2]), &dd(q[3])), &w, &sc, 99, &format!("determinant of {:?}", q))?;
        if q.iter().all(|w| w.1 == 0.0) { near(&DD::determinant_xy_f64(q[0].0, q[1].0, q[2].0, q[3].0), &w, &sc, 99, &format!("determinant of doubles {:?}", q))?; }
        Ok(())
    });
    // the sign of determinants of doubles that almost cancel is exact
    let dd1: Vec<f64> = [3.0, 0.1, 134217729.0, 9007199254740991.0, 1e-5, 123456.789].iter().flat_map(|v| (-2..=2).map(move |t| ulp(*v, t))).flat_map(|v| [v, -v]).chain([0.0]).collect();
    k.family("determinant sign", pow(dd1.len(), 4), |i, x| {
        let mut d = Dec(i);
        let (a, b, c, e) = (*d.of(&dd1), *d.of(&dd1), *d.of(&dd1), *d.of(&dd1));
        // cheap exactness: both products as two-term sums
        let (p, q) = (a * e, b * c);
        let w = if p != q { (p > q) as i32 - (p < q) as i32 } else { let t = a.mul_add(e, -p) - b.mul_add(c, -q); (t > 0.0) as i32 - (t < 0.0) as i32 };
        let g = DD::determinant_xy_f64(a, b, c, e).signum();
        x.t(1);
        x.out(match w { 0 => "zero", 1 => "positive", _ => "negative" });
        ensure!(g == w, "sign of the determinant {:?} {:?} {:?} {:?} = {} but exactly {}", a, b, c, e, g, w);
        Ok(())
    });
    // constructors, NaN, constants
    let f = scalars(true);
    k.family("construction and NaN", f.len() as u64, |i, x| {
        let a = f[i as usize];
        let mut m = dd((7.0, 1e-17));
        for g in [DD::new_x(a), DD::value_of_f64(a), DD::new_hi_lo(a, 0.0), { m.set_value_f64(a); m }, { let mut m = dd((7.0, 1e-17)); m.set_value_dd(&dd((a, 0.0))); m }, DD::copy(&dd((a, 0.0)))] {
            ensure!(g.double_value() == a && words(&g) == (a, 0.0), "{} built as {}", a, g.dump());
        }
        let p = a * 2f64.powi(-60);
        let mut m = dd((7.0, 1e-17)); m.set_value_dd(&dd((a, p)));
        ensure!(words(&m) == (a, p) && words(&DD::copy(&m)) == (a, p) && words(&DD::new_from_dd(&m)) == (a, p), "copies of {} {} = {}", a, p, m.dump());
        let nan = DD::create_nan();
        let v = dd((a, 0.0));
        let mut all = vec![DD::new_nan(), nan, nan.add_dd(&v), v.add_dd(&nan), nan.add_f64(a), v.add_f64(f64::NAN), nan.subtract_dd(&v), v.subtract_dd(&nan), nan.subtract_f64(a), v.subtract_f64(f64::NAN),
            nan.multiply_dd(&v), v.multiply_dd(&nan), nan.multiply_f64(a), v.multiply_f64(f64::NAN), nan.divide_dd(&v), v.divide_dd(&nan), nan.divide_f64(a), v.divide_f64(f64::NAN),
            nan.negate(), nan.abs(), nan.floor(), nan.ceil(), nan.trunc(), { let mut n = nan; n.rint() }, nan.sqr(), nan.sqrt_dd(), nan.reciprocal(), nan.pow(3), nan.pow(-2), nan.copy_self(),
            DD::determinant_xy_f64(f64::NAN, a, 1.0, 2.0), DD::determinant_xy_f64(1.0, a, f64::NAN, 2.0), DD::determinant_xy_dd(&v, &v, &v, &nan)];
        for (k, g) in [(0, v), (1, nan)] {
            let o = if k == 0 { nan } else { v };
            let mut m = g; m.self_add_dd(&o); all.push(m);
            let mut m = g; m.self_subtract_dd(&o); all.push(m);
            let mut m = g; m.self_multiply_dd(&o); all.push(m);
            let mut m = g; m.self_divide_dd(&o); all.push(m);
            let of = o.double_value();
            let mut m = g; m.self_add_f64(of); all.push(m);
            let mut m = g; m.self_subtract_f64(of); all.push(m);
            let mut m = g; m.self_multiply_f64(of); all.push(m);
            let mut m = g; m.self_divide_f64(of); all.push(m);
        }
        x.t(all.len() as u64);
        for (k, g) in all.iter().enumerate() { ensure!(g.is_nan() && g.double_value().is_nan(), "operation {} with NaN and {} = {}", k, a, g.dump()); }
        Ok(())
    });
    k.family("constants", 1, |_, x| {
        // 2^110 times pi and e, truncated
        let c = |hex: &str| -> Dy { let mut b = Dy::int(0); for ch in hex.chars() { b = b.scale2(4).add(&Dy::int(ch.to_digit(16).unwrap() as i128)); } b.scale2(-(hex.len() as i32 - 1) * 4) };
        let pi = c("3243f6a8885a308d313198a2e0370734");
        let e = c("2b7e151628aed2a6abf7158809cf4f3c");
        for (g, w, n) in [(DD::new_pi(), pi.clone(), "pi"), (DD::new_two_pi(), pi.scale2(1), "two pi"), (DD::new_pi_2(), pi.scale2(-1), "half pi"), (DD::new_e(), e, "e")] { near(&g, &w, &w, 104, n)?; x.t(1); }
        let z = DD::default();
        ensure!(z.is_zero() && z.signum() == 0 && z.double_value() == 0.0 && z.equals(&DD::new_x(0.0)), "the default is {}", z.dump());
        x.t(1);
        Ok(())
    });
    // decimal magnitude
    let dmax = 300i32;
    k.family("decimal magnitude", (2 * dmax as u64 + 1) * 14 * 2, |i, x| {
        let mut d = Dec(i);
        let p = d.take(2 * dmax as usize + 1) as i32 - dmax;
        let m = *d.of(&[1.0, 1.0000001, 1.5, 2.0, 3.0, 3.1622776, 3.1622777, 5.0, 7.0, 9.0, 9.5, 9.99, 9.9999999, 9.99999999999]);
        let s = if d.bit() { -1.0 } else { 1.0 };
        let v: f64 = format!("{}e{}", m, p).parse().unwrap();
        let g = dd((1.0, 0.0)).magnitude(s * v);
        x.t(1);
        x.out(if p < 0 { "below one" } else { "above one" });
        // a power of ten that is not a double may be rounded to either side
        ensure!(g == p || (m == 1.0 && !(0..=22).contains(&p) && (g == p - 1)), "magnitude of {} = {} not {}", s * v, g, p);
        Ok(())
    });
    // every distance between the exponents of two operands, at three scales, low words on both sides
    let mant: Vec<f64> = vec![1.0, -1.0, 1.5, 1.0 + f64::EPSILON, -(2.0 - f64::EPSILON), 4.0 / 3.0, -1.1, 1.0 + 2f64.powi(-26), 1.0 + 2f64.powi(-27) + f64::EPSILON];
    let lows: Vec<f64> = vec![0.0, 0.375, -0.4375, 0.25 + f64::EPSILON, -1e-4, 2f64.powi(-50)];
    let (nm, nl, gap) = (mant.len(), k.q(3usize, lows.len()), k.q(125i32, 400));
    k.family("every exponent gap", (nm * nm * nl * nl) as u64 * (2 * gap as u64 + 1) * 3, |i, x| {
        let mut d = Dec(i);
        let g = d.take(2 * gap as usize + 1) as i32 - gap;
        let (p, q) = (*d.of(&mant), *d.of(&mant));
        let (u, v) = (lows[d.take(nl)], lows[d.take(nl)]);
        let s = *d.of(&[0, -300, 290]);
        // the gap is split over both operands so that neither leaves the range
        let (e, f) = (s + g / 2, s + g / 2 - g);
        let w = |m: f64, l: f64, e: i32| -> W { let h = m * 2f64.powi(e); (h, l * (ulp(h.abs(), 1) - h.abs())) };
        let (a, b) = (w(p, u, e), w(q, v, f));
        if a.0 + a.1 != a.0 || b.0 + b.1 != b.0 { return x.skip(); }
        let (ea, eb) = (ex(a), ex(b));
        if !in_range(&ea) || !in_range(&eb) { return x.skip(); }
        x.note(|| format!("{:?} op {:?}", a, b));
        binary(a, b, x).map(|_| ())
    });
    // unary operations at every exponent
    k.family("unary at every exponent", (nm * lows.len()) as u64 * 1301, |i, x| {
        let mut d = Dec(i);
        let m = *d.of(&mant);
        let l = *d.of(&lows);
        let h = m * 2f64.powi(d.take(1301) as i32 - 650);
        let a = (h, l * (ulp(h.abs(), 1) - h.abs()));
        if a.0 + a.1 != a.0 { return x.skip(); }
        x.note(|| format!("{:?}", a));
        unary(a, x)
    });
    // high powers
    let emax = k.q(130i32, 300);
    let pb: Vec<W> = vec![(1.0, 0.0), (-1.0, 0.0), (2.0, 0.0), (-3.0, 0.0), (1.1, 0.0), (1.1, -8.326672684688674e-17), (-0.9, 2e-17), (1.5, 1e-17), (0.5, 0.0), (10.0, 0.0), (1.0 + f64::EPSILON, 1e-17)];
    k.family("high powers", pb.len() as u64 * (2 * emax as u64 + 1), |i, x| {
        let mut d = Dec(i);
        let a = *d.of(&pb);
        let p = d.take(2 * emax as usize + 1) as i32 - emax;
        let e = ex(a);
        let mut w = Dy::int(1);
        for _ in 0..p.abs() { w = w.mul(&e); }
        if !in_range(&w) { return x.skip(); }
        let g = dd(a).pow(p);
        x.t(1);
        x.out(if p < 0 { "negative power" } else { "power" });
        let g = match val(&g) { Some(v) => v, None => return Err(format!("{:?} to the power {} = {}", a, p, g.dump())) };
        let err = if p < 0 { g.mul(&w).sub(&Dy::int(1)) } else { g.sub(&w) };
        let sc = if p < 0 { Dy::int(1) } else { w.abs() };
        // the relative error of a power grows with the exponent
        ensure!(err.abs() <= sc.scale2(-97).mul(&Dy::int(p.abs().max(1) as i128)), "{:?} to the power {} is off by {} relative", a, p, err.f64() / sc.f64());
        Ok(())
    });
    k.finish()
}
