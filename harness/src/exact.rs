//! Exact arithmetic on doubles: dyadic numbers and rationals of dyadics.
use crate::big::Big;
use std::cmp::Ordering;

/// m * 2^e, exactly.
#[derive(Clone, Debug)]
pub struct Dy { pub m: Big, pub e: i32 }

impl Dy {
    pub fn int(v: i128) -> Dy { Dy { m: Big::from(v), e: 0 } }
    pub fn new(x: f64) -> Dy {
        assert!(x.is_finite(), "not finite");
        let b = x.to_bits();
        let ex = ((b >> 52) & 0x7ff) as i32;
        let fr = (b & ((1 << 52) - 1)) as i128;
        let (mut m, mut e) = if ex == 0 { (fr, -1074) } else { (fr | (1 << 52), ex - 1075) };
        if m == 0 { return Dy::int(0); }
        let tz = m.trailing_zeros() as i32;
        m >>= tz;
        e += tz;
        Dy { m: Big::from(if x < 0.0 { -m } else { m }), e }
    }
    fn at(&self, e: i32) -> Big { self.m.shl((self.e - e) as usize) }
    pub fn sign(&self) -> i32 { self.m.sign() }
    pub fn is_zero(&self) -> bool { self.m.is_zero() }
    pub fn neg(&self) -> Dy { Dy { m: self.m.neg(), e: self.e } }
    pub fn abs(&self) -> Dy { Dy { m: self.m.abs(), e: self.e } }
    pub fn add(&self, o: &Dy) -> Dy {
        if self.is_zero() { return o.clone(); }
        if o.is_zero() { return self.clone(); }
        let e = self.e.min(o.e);
        Dy { m: self.at(e).add(&o.at(e)), e }
    }
    pub fn sub(&self, o: &Dy) -> Dy { self.add(&o.neg()) }
    pub fn mul(&self, o: &Dy) -> Dy { Dy { m: self.m.mul(&o.m), e: if self.is_zero() || o.is_zero() { 0 } else { self.e + o.e } } }
    pub fn sq(&self) -> Dy { self.mul(self) }
    pub fn half(&self) -> Dy { Dy { m: self.m.clone(), e: self.e - 1 } }
    pub fn scale2(&self, k: i32) -> Dy { Dy { m: self.m.clone(), e: self.e + k } }
    pub fn floor(&self) -> Dy {
        if self.e >= 0 || self.is_zero() { return self.clone(); }
        let k = (-self.e) as usize;
        let q = self.m.shr(k);
        let exact = !self.m.low_bits(k);
        Dy { m: if self.m.sign() < 0 && !exact { q.sub(&Big::from(1)) } else { q }, e: 0 }
    }
    /// nearest double, ties to even (overflow to infinity; gradual underflow respected)
    pub fn f64(&self) -> f64 { big_to_f64(&self.m, self.e, false) }
    /// is it exactly a double?
    pub fn is_f64(&self) -> bool { let f = self.f64(); f.is_finite() && Dy::new(f) == *self }
}
impl PartialEq for Dy { fn eq(&self, o: &Dy) -> bool { self.cmp(o) == Ordering::Equal } }
impl Eq for Dy {}
impl PartialOrd for Dy { fn partial_cmp(&self, o: &Dy) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for Dy {
    fn cmp(&self, o: &Dy) -> Ordering {
        let (a, b) = (self.sign(), o.sign());
        if a != b || a == 0 { return a.cmp(&b); }
        let e = self.e.min(o.e);
        self.at(e).cmp(&o.at(e))
    }
}

/// nearest double to m*2^e (sticky: a nonzero remainder lies below m's last bit)
fn big_to_f64(m: &Big, e: i32, sticky: bool) -> f64 {
    let s = m.sign();
    if s == 0 { return 0.0; }
    let a = m.abs();
    let bits = a.bits() as i32;
    let top = bits + e; // value in [2^(top-1), 2^top)
    if top > 1100 { return s as f64 * f64::INFINITY; }
    let keep = if top > -1021 { 53 } else { 53 - (-1021 - top) }; // available mantissa bits
    if keep < 0 { return s as f64 * 0.0; }
    let drop = bits - keep;
    let (mut q, qe) = if drop > 0 {
        let mut q = if keep == 0 { 0 } else { a.shr(drop as usize).low_u64() };
        let half = a.bit(drop as usize - 1);
        let rest = sticky || a.low_bits(drop as usize - 1);
        if half && (rest || q & 1 == 1) { q += 1; }
        (q, e + drop)
    } else { (a.low_u64(), e) };
    // q <= 2^53, result q * 2^qe
    let mut qe = qe;
    let mut r;
    while q != 0 && q & 1 == 0 { q >>= 1; qe += 1; }
    r = q as f64;
    while qe > 0 { let k = qe.min(1000); r *= 2f64.powi(k); qe -= k; }
    while qe < 0 { let k = (-qe).min(1000); r *= 2f64.powi(-k); qe += k; }
    s as f64 * r
}

/// n / d with d != 0
#[derive(Clone, Debug)]
pub struct Rat { pub n: Dy, pub d: Dy }
impl Rat {
    pub fn new(n: Dy, d: Dy) -> Rat { assert!(!d.is_zero()); if d.sign() < 0 { Rat { n: n.neg(), d: d.neg() } } else { Rat { n, d } } }
    pub fn of(x: f64) -> Rat { Rat { n: Dy::new(x), d: Dy::int(1) } }
    pub fn dy(x: Dy) -> Rat { Rat { n: x, d: Dy::int(1) } }
    pub fn add(&self, o: &Rat) -> Rat { Rat { n: self.n.mul(&o.d).add(&o.n.mul(&self.d)), d: self.d.mul(&o.d) } }
    pub fn sub(&self, o: &Rat) -> Rat { Rat { n: self.n.mul(&o.d).sub(&o.n.mul(&self.d)), d: self.d.mul(&o.d) } }
    pub fn mul(&self, o: &Rat) -> Rat { Rat { n: self.n.mul(&o.n), d: self.d.mul(&o.d) } }
    pub fn div(&self, o: &Rat) -> Rat { Rat::new(self.n.mul(&o.d), self.d.mul(&o.n)) }
    pub fn sign(&self) -> i32 { self.n.sign() }
    pub fn f64(&self) -> f64 {
        if self.n.is_zero() { return 0.0; }
        // scale so that the quotient has at least 66 bits
        let want = 66 + self.d.m.bits() as i32 - self.n.m.bits() as i32;
        let sh = want.max(0);
        let (q, r) = self.n.m.abs().shl(sh as usize).divrem_mag(&self.d.m);
        let v = big_to_f64(&q, self.n.e - self.d.e - sh, !r.is_zero());
        if self.n.sign() * self.d.sign() < 0 { -v } else { v }
    }
}
impl PartialEq for Rat { fn eq(&self, o: &Rat) -> bool { self.cmp(o) == Ordering::Equal } }
impl Eq for Rat {}
impl PartialOrd for Rat { fn partial_cmp(&self, o: &Rat) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for Rat { fn cmp(&self, o: &Rat) -> Ordering { self.n.mul(&o.d).cmp(&o.n.mul(&self.d)) } }

/// sign of the determinant (b-a) x (c-a), exactly: 1 left turn, -1 right turn, 0 collinear
pub fn orient(a: (f64, f64), b: (f64, f64), c: (f64, f64)) -> i32 {
    let d = |x: f64, y: f64| Dy::new(x).sub(&Dy::new(y));
    d(b.0, a.0).mul(&d(c.1, a.1)).sub(&d(b.1, a.1).mul(&d(c.0, a.0))).sign()
}
/// The exact orientation, if a double-double evaluation is obliged to get it right: all coordinate
/// differences are doubles, or the determinant is not vanishingly small next to the extent of the points;
/// and nothing over- or underflows.
pub fn orient_claimed(a: (f64, f64), b: (f64, f64), q: (f64, f64)) -> Option<i32> {
    let d = |x: f64, y: f64| Dy::new(x).sub(&Dy::new(y));
    let (bx, by, qx, qy) = (d(b.0, a.0), d(b.1, a.1), d(q.0, a.0), d(q.1, a.1));
    let (l, r) = (bx.mul(&qy), by.mul(&qx));
    let det = l.sub(&r);
    let lim = |v: &Dy| { let f = v.f64().abs(); f == 0.0 || (f > 1e-280 && f < 1e280) };
    // neither the products themselves nor their last bits may leave the range of doubles
    if !(lim(&l) && lim(&r) && lim(&det)) { return None; }
    for v in [a.0, a.1, b.0, b.1, q.0, q.1] { if v != 0.0 && !(v.abs() > 1e-130 && v.abs() < 1e130) { return None; } }
    let exact = bx.is_f64() && by.is_f64() && qx.is_f64() && qy.is_f64() && d(q.0, b.0).is_f64() && d(q.1, b.1).is_f64();
    if exact { return Some(det.sign()); }
    // rounded differences: claimed when the determinant is clearly away from zero
    let (mx, my) = (bx.abs().max(qx.abs()), by.abs().max(qy.abs()));
    if det.abs() > mx.mul(&my).scale2(-85) { Some(det.sign()) } else { None }
}
/// the exact orientation of integer points
#[inline]
pub fn orient_i(a: (i64, i64), b: (i64, i64), c: (i64, i64)) -> i32 {
    let l = (b.0 as i128 - a.0 as i128) * (c.1 as i128 - a.1 as i128);
    let r = (b.1 as i128 - a.1 as i128) * (c.0 as i128 - a.0 as i128);
    (l > r) as i32 - (l < r) as i32
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn roundtrip() {
        for x in [0.0, 1.0, -1.5, 1e300, 5e-324, -2.2250738585072014e-308, 1.1e-310, 0.1, f64::MAX, 123456789.123] {
            assert_eq!(Dy::new(x).f64(), x);
            assert!(Dy::new(x).is_f64());
        }
        let mut v: Vec<f64> = vec![];
        for i in 0..40 { for j in 0..40 { v.push((1.0 + i as f64 * 0.37) * 10f64.powi(j * 15 - 300)); } }
        for w in v.chunks(2) {
            let (a, b) = (w[0], -w[1]);
            assert_eq!(Dy::new(a).add(&Dy::new(b)).f64(), a + b);
            assert_eq!(Dy::new(a).mul(&Dy::new(b)).f64(), a * b, "{} {}", a, b);
            if (a / b).is_finite() && a / b != 0.0 { assert_eq!(Rat::new(Dy::new(a), Dy::new(b)).f64(), a / b, "{} {}", a, b); }
        }
        assert_eq!(Rat::new(Dy::new(-1.0), Dy::new(3.0)).f64(), -1.0 / 3.0);
        assert_eq!(Dy::new(-2.5).floor().f64(), -3.0);
        assert_eq!(Dy::new(2.5).floor().f64(), 2.0);
        assert_eq!(orient((0., 0.), (1., 0.), (0., 1.)), 1);
    }
}
