//! Double-double arithmetic (about 31 decimal digits): the independent number system in which
//! every reference value of this harness is computed. Nothing here uses the crate under test.
//! `gq-check selftest` compares this module with 50-digit values computed by mpmath
//! (data/oracle.json, made by tools/make_oracle.py).

use std::cmp::Ordering;
use std::ops::{Add, AddAssign, Div, Mul, MulAssign, Neg, Sub, SubAssign};

#[derive(Clone, Copy, Debug, Default)]
pub struct Dd {
    pub hi: f64,
    pub lo: f64,
}

#[inline]
fn quick_two_sum(a: f64, b: f64) -> (f64, f64) {
    let s = a + b;
    (s, b - (s - a))
}

#[inline]
fn two_sum(a: f64, b: f64) -> (f64, f64) {
    let s = a + b;
    let bb = s - a;
    (s, (a - (s - bb)) + (b - bb))
}

#[inline]
fn split(a: f64) -> (f64, f64) {
    const SPLITTER: f64 = 134_217_729.0; // 2^27 + 1
    if a.abs() > 6.7e299 {
        let a = a * 3.725_290_298_461_914e-9; // 2^-28
        let t = SPLITTER * a;
        let hi = t - (t - a);
        let lo = a - hi;
        return (hi * 268_435_456.0, lo * 268_435_456.0);
    }
    let t = SPLITTER * a;
    let hi = t - (t - a);
    (hi, a - hi)
}

#[inline]
fn two_prod(a: f64, b: f64) -> (f64, f64) {
    let p = a * b;
    let (ah, al) = split(a);
    let (bh, bl) = split(b);
    (p, ((ah * bh - p) + ah * bl + al * bh) + al * bl)
}

pub const ZERO: Dd = Dd { hi: 0.0, lo: 0.0 };
pub const ONE: Dd = Dd { hi: 1.0, lo: 0.0 };
pub const TWO: Dd = Dd { hi: 2.0, lo: 0.0 };
pub const HALF: Dd = Dd { hi: 0.5, lo: 0.0 };
pub const PI: Dd = Dd {
    hi: std::f64::consts::PI,
    lo: 1.224_646_799_147_353_2e-16,
};
pub const LN2: Dd = Dd {
    hi: std::f64::consts::LN_2,
    lo: 2.319_046_813_846_3e-17,
};

pub fn dd(x: f64) -> Dd {
    Dd { hi: x, lo: 0.0 }
}

impl Dd {
    #[inline]
    pub fn f(self) -> f64 {
        self.hi + self.lo
    }
    #[inline]
    pub fn sqr(self) -> Dd {
        self * self
    }
    /// Exact scaling by a power of two.
    #[inline]
    pub fn scale2(self, s: f64) -> Dd {
        Dd {
            hi: self.hi * s,
            lo: self.lo * s,
        }
    }
    pub fn sqrt(self) -> Dd {
        if self.hi <= 0.0 {
            return if self.hi == 0.0 { ZERO } else { dd(f64::NAN) };
        }
        let x = dd(self.hi.sqrt());
        let x = (x + self / x).scale2(0.5);
        (x + self / x).scale2(0.5)
    }
    pub fn recip(self) -> Dd {
        ONE / self
    }
    pub fn exp(self) -> Dd {
        if self.hi > 709.5 {
            return dd(f64::INFINITY);
        }
        if self.hi < -745.0 {
            return ZERO;
        }
        let k = (self.hi / LN2.hi).round();
        let r = (self - LN2 * dd(k)).scale2(1.0 / 512.0);
        // s = exp(r) - 1
        let mut term = r;
        let mut s = r;
        for i in 2..=9u32 {
            term = term * r / dd(f64::from(i));
            s += term;
        }
        for _ in 0..9 {
            s = s.scale2(2.0) + s * s;
        }
        let e = s + ONE;
        let k = k as i32;
        // two steps: 2^k may not be representable while the result is
        let k1 = k / 2;
        e.scale2(2f64.powi(k1)).scale2(2f64.powi(k - k1))
    }
    pub fn ln(self) -> Dd {
        let mut y = dd(self.hi.ln());
        for _ in 0..3 {
            y = y + self * (-y).exp() - ONE;
        }
        y
    }
    /// (sin, cos) for moderate arguments.
    pub fn sin_cos(self) -> (Dd, Dd) {
        let half_pi = PI.scale2(0.5);
        let q = (self.hi / half_pi.hi).round();
        let r = self - half_pi * dd(q);
        // reduce once more by 8
        let t = r.scale2(0.125);
        let t2 = t * t;
        // sin t, and c1 = 1 - cos t, for |t| <= 0.1
        let mut s = t;
        let mut term = t;
        let mut i = 1.0;
        while i < 24.0 {
            term = -(term * t2) / dd((i + 1.0) * (i + 2.0));
            s += term;
            i += 2.0;
        }
        let mut c1 = t2.scale2(0.5);
        let mut term = c1;
        let mut i = 2.0;
        while i < 24.0 {
            term = -(term * t2) / dd((i + 1.0) * (i + 2.0));
            c1 += term;
            i += 2.0;
        }
        for _ in 0..3 {
            // sin 2t = 2 s (1 - c1); 1 - cos 2t = 2 s^2
            let s2 = s.scale2(2.0) * (ONE - c1);
            c1 = (s * s).scale2(2.0);
            s = s2;
        }
        let c = ONE - c1;
        match (q.rem_euclid(4.0)) as i32 {
            0 => (s, c),
            1 => (c, -s),
            2 => (-s, -c),
            _ => (-c, s),
        }
    }
    pub fn cos(self) -> Dd {
        self.sin_cos().1
    }
    pub fn sin(self) -> Dd {
        self.sin_cos().0
    }
    /// ln(gamma(x)) for x > 0: Stirling's series after shifting x above 40.
    pub fn ln_gamma(self) -> Dd {
        // B_2k / (2k (2k-1))
        const NUM: [(f64, f64); 14] = [
            (1.0, 12.0),
            (-1.0, 360.0),
            (1.0, 1260.0),
            (-1.0, 1680.0),
            (1.0, 1188.0),
            (-691.0, 360_360.0),
            (1.0, 156.0),
            (-3617.0, 122_400.0),
            (43_867.0, 244_188.0),
            (-174_611.0, 125_400.0),
            (77_683.0, 5_796.0),
            (-236_364_091.0, 1_506_960.0),
            (657_931.0, 300.0),
            (-3_392_780_147.0, 93_960.0),
        ];
        let mut x = self;
        let mut shift = ONE;
        let mut log_shift = ZERO;
        while x.hi < 40.0 {
            shift *= x;
            if shift.hi > 1e200 || shift.hi < 1e-200 {
                log_shift += shift.ln();
                shift = ONE;
            }
            x += ONE;
        }
        let log_shift = log_shift + shift.ln();
        let inv = x.recip();
        let inv2 = inv * inv;
        let mut p = inv;
        let mut series = ZERO;
        for (n, d) in NUM {
            series += p * dd(n) / dd(d);
            p *= inv2;
        }
        (x - HALF) * x.ln() - x + PI.scale2(2.0).ln().scale2(0.5) + series - log_shift
    }
    pub fn gamma(self) -> Dd {
        self.ln_gamma().exp()
    }
}

impl Add for Dd {
    type Output = Dd;
    #[inline]
    fn add(self, o: Dd) -> Dd {
        let (s1, s2) = two_sum(self.hi, o.hi);
        let (t1, t2) = two_sum(self.lo, o.lo);
        let (s1, s2) = quick_two_sum(s1, s2 + t1);
        let (hi, lo) = quick_two_sum(s1, s2 + t2);
        Dd { hi, lo }
    }
}
impl Neg for Dd {
    type Output = Dd;
    #[inline]
    fn neg(self) -> Dd {
        Dd {
            hi: -self.hi,
            lo: -self.lo,
        }
    }
}
impl Sub for Dd {
    type Output = Dd;
    #[inline]
    fn sub(self, o: Dd) -> Dd {
        self + (-o)
    }
}
impl Mul for Dd {
    type Output = Dd;
    #[inline]
    fn mul(self, o: Dd) -> Dd {
        let (p1, p2) = two_prod(self.hi, o.hi);
        let p2 = p2 + (self.hi * o.lo + self.lo * o.hi);
        let (hi, lo) = quick_two_sum(p1, p2);
        Dd { hi, lo }
    }
}
impl Div for Dd {
    type Output = Dd;
    #[inline]
    fn div(self, o: Dd) -> Dd {
        let q1 = self.hi / o.hi;
        let r = self - o * dd(q1);
        let q2 = r.hi / o.hi;
        let r = r - o * dd(q2);
        let q3 = r.hi / o.hi;
        let (q1, q2) = quick_two_sum(q1, q2);
        Dd { hi: q1, lo: q2 } + dd(q3)
    }
}
impl AddAssign for Dd {
    #[inline]
    fn add_assign(&mut self, o: Dd) {
        *self = *self + o;
    }
}
impl SubAssign for Dd {
    #[inline]
    fn sub_assign(&mut self, o: Dd) {
        *self = *self - o;
    }
}
impl MulAssign for Dd {
    #[inline]
    fn mul_assign(&mut self, o: Dd) {
        *self = *self * o;
    }
}
impl PartialEq for Dd {
    fn eq(&self, o: &Dd) -> bool {
        self.hi == o.hi && self.lo == o.lo
    }
}
impl PartialOrd for Dd {
    fn partial_cmp(&self, o: &Dd) -> Option<Ordering> {
        match self.hi.partial_cmp(&o.hi) {
            Some(Ordering::Equal) => self.lo.partial_cmp(&o.lo),
            r => r,
        }
    }
}
