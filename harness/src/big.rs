//! Small arbitrary-precision signed integers (sign and magnitude, base 2^32).
use std::cmp::Ordering;

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Big { neg: bool, m: Vec<u32> } // m without leading zeros; zero is never negative

impl Big {
    pub fn zero() -> Big { Big::default() }
    pub fn from(v: i128) -> Big {
        let mut u = v.unsigned_abs();
        let mut m = vec![];
        while u > 0 { m.push(u as u32); u >>= 32; }
        Big { neg: v < 0, m }
    }
    pub fn is_zero(&self) -> bool { self.m.is_empty() }
    pub fn sign(&self) -> i32 { if self.m.is_empty() { 0 } else if self.neg { -1 } else { 1 } }
    pub fn bits(&self) -> usize { match self.m.last() { None => 0, Some(t) => self.m.len() * 32 - t.leading_zeros() as usize } }
    fn norm(neg: bool, mut m: Vec<u32>) -> Big {
        while m.last() == Some(&0) { m.pop(); }
        let neg = neg && !m.is_empty();
        Big { neg, m }
    }
    pub fn neg(&self) -> Big { Big::norm(!self.neg, self.m.clone()) }
    pub fn abs(&self) -> Big { Big { neg: false, m: self.m.clone() } }
    fn cmp_mag(a: &[u32], b: &[u32]) -> Ordering {
        a.len().cmp(&b.len()).then_with(|| a.iter().rev().cmp(b.iter().rev()))
    }
    fn add_mag(a: &[u32], b: &[u32]) -> Vec<u32> {
        let (a, b) = if a.len() >= b.len() { (a, b) } else { (b, a) };
        let mut r = Vec::with_capacity(a.len() + 1);
        let mut c = 0u64;
        for i in 0..a.len() {
            c += a[i] as u64 + *b.get(i).unwrap_or(&0) as u64;
            r.push(c as u32);
            c >>= 32;
        }
        if c > 0 { r.push(c as u32); }
        r
    }
    fn sub_mag(a: &[u32], b: &[u32]) -> Vec<u32> { // a >= b
        let mut r = Vec::with_capacity(a.len());
        let mut c = 0i64;
        for i in 0..a.len() {
            let mut d = a[i] as i64 - *b.get(i).unwrap_or(&0) as i64 - c;
            c = 0;
            if d < 0 { d += 1 << 32; c = 1; }
            r.push(d as u32);
        }
        r
    }
    pub fn add(&self, o: &Big) -> Big {
        if self.neg == o.neg { return Big::norm(self.neg, Big::add_mag(&self.m, &o.m)); }
        match Big::cmp_mag(&self.m, &o.m) {
            Ordering::Equal => Big::zero(),
            Ordering::Greater => Big::norm(self.neg, Big::sub_mag(&self.m, &o.m)),
            Ordering::Less => Big::norm(o.neg, Big::sub_mag(&o.m, &self.m)),
        }
    }
    pub fn sub(&self, o: &Big) -> Big { self.add(&o.neg()) }
    pub fn mul(&self, o: &Big) -> Big {
        if self.is_zero() || o.is_zero() { return Big::zero(); }
        let mut r = vec![0u32; self.m.len() + o.m.len()];
        for (i, &x) in self.m.iter().enumerate() {
            let mut c = 0u64;
            for (j, &y) in o.m.iter().enumerate() {
                c += x as u64 * y as u64 + r[i + j] as u64;
                r[i + j] = c as u32;
                c >>= 32;
            }
            r[i + o.m.len()] = c as u32;
        }
        Big::norm(self.neg != o.neg, r)
    }
    pub fn shl(&self, k: usize) -> Big {
        if self.is_zero() { return Big::zero(); }
        let (w, b) = (k / 32, k % 32);
        let mut m = vec![0u32; w];
        let mut c = 0u64;
        for &x in &self.m { let v = ((x as u64) << b) | c; m.push(v as u32); c = v >> 32; }
        m.push(c as u32);
        Big::norm(self.neg, m)
    }
    /// truncating right shift of the magnitude
    pub fn shr(&self, k: usize) -> Big {
        let (w, b) = (k / 32, k % 32);
        if w >= self.m.len() { return Big::zero(); }
        let s = &self.m[w..];
        let m = (0..s.len()).map(|i| (((s[i] as u64) | ((*s.get(i + 1).unwrap_or(&0) as u64) << 32)) >> b) as u32).collect();
        Big::norm(self.neg, m)
    }
    pub fn bit(&self, k: usize) -> bool { self.m.get(k / 32).map(|x| x >> (k % 32) & 1 == 1).unwrap_or(false) }
    /// any bit below position k set
    pub fn low_bits(&self, k: usize) -> bool { (0..k.min(self.bits())).any(|i| self.bit(i)) }
    /// floor division of magnitudes, |self| / |d|, with remainder (both non-negative)
    pub fn divrem_mag(&self, d: &Big) -> (Big, Big) {
        assert!(!d.is_zero());
        let mut q = vec![0u32; self.m.len()];
        let mut r = Big::zero();
        let dd = d.abs();
        for k in (0..self.bits()).rev() {
            r = r.shl(1);
            if self.bit(k) { r = r.add(&Big::from(1)); }
            if Big::cmp_mag(&r.m, &dd.m) != Ordering::Less { r = r.sub(&dd); q[k / 32] |= 1 << (k % 32); }
        }
        (Big::norm(false, q), r)
    }
    pub fn low_u64(&self) -> u64 { *self.m.first().unwrap_or(&0) as u64 | (*self.m.get(1).unwrap_or(&0) as u64) << 32 }
}
impl PartialOrd for Big { fn partial_cmp(&self, o: &Big) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for Big {
    fn cmp(&self, o: &Big) -> Ordering {
        match (self.neg, o.neg) {
            (false, true) => Ordering::Greater,
            (true, false) => Ordering::Less,
            (false, false) => Big::cmp_mag(&self.m, &o.m),
            (true, true) => Big::cmp_mag(&o.m, &self.m),
        }
    }
}
