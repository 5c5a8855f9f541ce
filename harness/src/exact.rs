//! A user-defined exact coordinate type: rational numbers. Everything the Real trait can ask of exact arithmetic is implemented.
use num_traits::{real::Real, Num, NumCast, One, ToPrimitive, Zero};
use std::{cmp::Ordering, ops};

#[derive(Clone, Copy, Debug)]
pub struct Q { n: i128, d: i128 }
fn gcd(a: i128, b: i128) -> i128 { if b == 0 { a.abs() } else { gcd(b, a % b) } }
impl Q {
    pub fn int(n: i64) -> Q { Q { n: n as i128, d: 1 } }
    fn new(n: i128, d: i128) -> Q {
        if d == 1 { return Q { n, d } }
        assert!(d != 0, "division by zero");
        let g = gcd(n, d).max(1);
        let s = if d < 0 { -1 } else { 1 };
        Q { n: s * n / g, d: s * d / g }
    }
    pub fn f64(&self) -> f64 { self.n as f64 / self.d as f64 }
}
impl PartialEq for Q { fn eq(&self, o: &Q) -> bool { crate::num::tick(); self.n == o.n && self.d == o.d } }
impl PartialOrd for Q { fn partial_cmp(&self, o: &Q) -> Option<Ordering> { crate::num::tick(); Some((self.n * o.d).cmp(&(o.n * self.d))) } }
impl ops::Add for Q { type Output = Q; fn add(self, o: Q) -> Q { if self.d == 1 && o.d == 1 { Q { n: self.n + o.n, d: 1 } } else { Q::new(self.n * o.d + o.n * self.d, self.d * o.d) } } }
impl ops::Sub for Q { type Output = Q; fn sub(self, o: Q) -> Q { if self.d == 1 && o.d == 1 { Q { n: self.n - o.n, d: 1 } } else { Q::new(self.n * o.d - o.n * self.d, self.d * o.d) } } }
impl ops::Mul for Q { type Output = Q; fn mul(self, o: Q) -> Q { if self.d == 1 && o.d == 1 { Q { n: self.n * o.n, d: 1 } } else { Q::new(self.n * o.n, self.d * o.d) } } }
impl ops::Div for Q { type Output = Q; fn div(self, o: Q) -> Q { Q::new(self.n * o.d, self.d * o.n) } }
impl ops::Rem for Q { type Output = Q; fn rem(self, o: Q) -> Q { let k = (self / o).trunc(); self - k * o } }
impl ops::Neg for Q { type Output = Q; fn neg(self) -> Q { Q { n: -self.n, d: self.d } } }
impl Zero for Q { fn zero() -> Q { Q::int(0) } fn is_zero(&self) -> bool { self.n == 0 } }
impl One for Q { fn one() -> Q { Q::int(1) } }
impl Num for Q { type FromStrRadixErr = std::num::ParseIntError; fn from_str_radix(s: &str, r: u32) -> Result<Q, Self::FromStrRadixErr> { i128::from_str_radix(s, r).map(|n| Q { n, d: 1 }) } }
impl ToPrimitive for Q { fn to_i64(&self) -> Option<i64> { self.trunc().n.to_i64() } fn to_u64(&self) -> Option<u64> { self.trunc().n.to_u64() } fn to_f64(&self) -> Option<f64> { Some(self.f64()) } }
impl NumCast for Q { fn from<T: ToPrimitive>(n: T) -> Option<Q> { let f = n.to_f64()?; if f.fract() == 0.0 && f.abs() < 1e30 { Some(Q { n: f as i128, d: 1 }) } else if f.is_finite() { Some(Q::new((f * 1048576.0) as i128, 1 << 20)) } else { None } } }
macro_rules! inexact { ($($f:ident),*) => { $(fn $f(self) -> Q { <Q as NumCast>::from(num_traits::Float::$f(self.f64())).expect("inexact") })* } }
impl Real for Q {
    fn min_value() -> Q { Q { n: -(1 << 60), d: 1 } }
    fn min_positive_value() -> Q { Q { n: 1, d: 1 << 30 } }
    fn epsilon() -> Q { Q { n: 1, d: 1 << 30 } }
    fn max_value() -> Q { Q { n: 1 << 60, d: 1 } }
    fn floor(self) -> Q { Q { n: self.n.div_euclid(self.d), d: 1 } }
    fn ceil(self) -> Q { Q { n: -((-self.n).div_euclid(self.d)), d: 1 } }
    fn round(self) -> Q { (self + Q { n: 1, d: 2 }).floor() }
    fn trunc(self) -> Q { Q { n: self.n / self.d, d: 1 } }
    fn fract(self) -> Q { self - self.trunc() }
    fn abs(self) -> Q { Q { n: self.n.abs(), d: self.d } }
    fn signum(self) -> Q { Q { n: if self.n < 0 { -1 } else { 1 }, d: 1 } }
    fn is_sign_positive(self) -> bool { self.n >= 0 }
    fn is_sign_negative(self) -> bool { self.n < 0 }
    fn mul_add(self, a: Q, b: Q) -> Q { self * a + b }
    fn recip(self) -> Q { Q::int(1) / self }
    fn powi(self, n: i32) -> Q { let mut r = Q::int(1); for _ in 0..n.abs() { r = r * self; } if n < 0 { r.recip() } else { r } }
    fn powf(self, n: Q) -> Q { <Q as NumCast>::from(self.f64().powf(n.f64())).expect("inexact") }
    fn log(self, b: Q) -> Q { <Q as NumCast>::from(self.f64().log(b.f64())).expect("inexact") }
    fn max(self, o: Q) -> Q { if self < o { o } else { self } }
    fn min(self, o: Q) -> Q { if o < self { o } else { self } }
    fn abs_sub(self, o: Q) -> Q { if self > o { self - o } else { Q::int(0) } }
    fn hypot(self, o: Q) -> Q { <Q as NumCast>::from(self.f64().hypot(o.f64())).expect("inexact") }
    fn atan2(self, o: Q) -> Q { <Q as NumCast>::from(self.f64().atan2(o.f64())).expect("inexact") }
    fn sin_cos(self) -> (Q, Q) { (self.sin(), self.cos()) }
    inexact!(sqrt, exp, exp2, ln, log2, log10, to_degrees, to_radians, cbrt, sin, cos, tan, asin, acos, atan, exp_m1, ln_1p, sinh, cosh, tanh, asinh, acosh, atanh);
}
