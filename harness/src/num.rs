//! Counting coordinate and index types. Every comparison / arithmetic operation on a coordinate and every clone of an
//! index ticks a thread-local counter; passing the budget unwinds out of the library, which turns non-termination into a
//! deterministic, replayable observation.
use num_traits::{real::Real, Float, Num, NumCast, One, ToPrimitive, Zero};
use std::{cell::Cell, cmp::Ordering, ops};

thread_local!(static TICKS: Cell<u64> = const { Cell::new(0) });
thread_local!(static BUDGET: Cell<u64> = const { Cell::new(u64::MAX) });

type Hook = Box<dyn FnMut() -> u64>;
thread_local!(static HOOK: Cell<Option<Hook>> = const { Cell::new(None) });

pub struct BudgetExceeded;

/// Call `h` after `pause` counted operations of this thread instead of enforcing a budget
pub fn set_hook(pause: u64, h: Hook) { HOOK.with(|c| c.set(Some(h))); start(pause); }
pub fn ticks() -> u64 { TICKS.with(|t| t.get()) }
pub fn drop_hook() { HOOK.with(|c| c.set(None)); stop(); }

#[inline(always)]
pub fn tick() {
    TICKS.with(|t| {
        let n = t.get() + 1;
        t.set(n);
        if n > BUDGET.with(|b| b.get()) { over(); }
    })
}

#[cold]
#[inline(never)]
fn over() {
    // a hook may use the moment (switch threads, call the library again): it says how many operations later it wants to be called again
    if let Some(mut h) = HOOK.with(|h| h.take()) {
        let at = TICKS.with(|t| t.get());
        BUDGET.with(|b| b.set(u64::MAX));
        let pause = h();
        TICKS.with(|t| t.set(at));
        BUDGET.with(|b| b.set(at + pause));
        HOOK.with(|c| c.set(Some(h)));
        return;
    }
    // once only: destructors / error formatting must not panic again
    BUDGET.with(|b| b.set(u64::MAX));
    std::panic::panic_any(BudgetExceeded);
}

pub fn start(budget: u64) { TICKS.with(|t| t.set(0)); BUDGET.with(|b| b.set(budget)); }
pub fn stop() -> u64 { BUDGET.with(|b| b.set(u64::MAX)); TICKS.with(|t| t.get()) }

/// Misbehaving user code, for the binary which looks for invalid memory accesses only: which kinds of lie, one in how many answers, random state
#[cfg(verif_asan)]
pub mod lies {
    use std::cell::Cell;
    thread_local!(static LIES: Cell<(u32, u32, u64)> = const { Cell::new((0, 1, 0)) });
    pub fn set(kinds: u32, one_in: u32, seed: u64) { LIES.with(|l| l.set((kinds, one_in.max(1), seed | 1))); }
    /// A random number if this answer is to be a lie
    #[inline]
    pub fn lie(kind: u32) -> Option<u64> {
        let (k, one_in, s) = LIES.with(|l| l.get());
        if k & kind == 0 { return None; }
        let s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        LIES.with(|l| l.set((k, one_in, s)));
        ((s >> 33) % one_in as u64 == 0).then(|| crate::rng::mix(s))
    }
    pub const VALUES: u32 = 1; pub const COMPARISONS: u32 = 2; pub const ARITHMETIC: u32 = 4; pub const VERTICES: u32 = 8; pub const ITERATION: u32 = 16; pub const COUNT: u32 = 32; pub const INDEX_EQ: u32 = 64; pub const LENGTHS: u32 = 128; pub const ERRORS: u32 = 256;
}

#[derive(Clone, Copy, Debug)]
pub struct Cf<T>(pub T);

impl<T: PartialEq> PartialEq for Cf<T> { #[inline(always)] fn eq(&self, o: &Self) -> bool { tick(); #[cfg(verif_asan)] if let Some(r) = lies::lie(lies::COMPARISONS) { return r & 1 == 0; } self.0 == o.0 } }
impl<T: PartialOrd> PartialOrd for Cf<T> { #[inline(always)] fn partial_cmp(&self, o: &Self) -> Option<Ordering> { tick(); #[cfg(verif_asan)] if let Some(r) = lies::lie(lies::COMPARISONS) { return [None, Some(Ordering::Less), Some(Ordering::Equal), Some(Ordering::Greater)][r as usize % 4]; } self.0.partial_cmp(&o.0) } }
macro_rules! op { ($tr:ident, $f:ident) => { impl<T: Float> ops::$tr for Cf<T> { type Output = Self; #[inline(always)] fn $f(self, o: Self) -> Self { tick(); #[cfg(verif_asan)] if let Some(r) = lies::lie(lies::ARITHMETIC) { return Cf([T::zero(), -T::one(), T::one(), T::nan(), T::infinity(), self.0, o.0, T::neg_infinity()][r as usize % 8]); } Cf(ops::$tr::$f(self.0, o.0)) } } } }
op!(Add, add); op!(Sub, sub); op!(Mul, mul); op!(Div, div); op!(Rem, rem);
impl<T: Float> ops::Neg for Cf<T> { type Output = Self; fn neg(self) -> Self { Cf(-self.0) } }
impl<T: Float> Zero for Cf<T> { fn zero() -> Self { Cf(T::zero()) } fn is_zero(&self) -> bool { self.0.is_zero() } }
impl<T: Float> One for Cf<T> { fn one() -> Self { Cf(T::one()) } }
impl<T: Float> Num for Cf<T> { type FromStrRadixErr = T::FromStrRadixErr; fn from_str_radix(s: &str, r: u32) -> Result<Self, Self::FromStrRadixErr> { T::from_str_radix(s, r).map(Cf) } }
impl<T: Float> ToPrimitive for Cf<T> {
    fn to_i64(&self) -> Option<i64> { self.0.to_i64() }
    fn to_u64(&self) -> Option<u64> { self.0.to_u64() }
    fn to_f32(&self) -> Option<f32> { self.0.to_f32() }
    fn to_f64(&self) -> Option<f64> { self.0.to_f64() }
}
impl<T: Float> NumCast for Cf<T> { fn from<N: ToPrimitive>(n: N) -> Option<Self> { <T as NumCast>::from(n).map(Cf) } }
macro_rules! un { ($($f:ident),*) => { $(fn $f(self) -> Self { Cf(Float::$f(self.0)) })* } }
impl<T: Float> Real for Cf<T> {
    fn min_value() -> Self { Cf(Float::min_value()) }
    fn min_positive_value() -> Self { Cf(Float::min_positive_value()) }
    fn epsilon() -> Self { Cf(Float::epsilon()) }
    fn max_value() -> Self { Cf(Float::max_value()) }
    un!(floor, ceil, round, trunc, fract, abs, signum, recip, sqrt, exp, exp2, ln, log2, log10, to_degrees, to_radians, cbrt, sin, cos, tan, asin, acos, atan, exp_m1, ln_1p, sinh, cosh, tanh, asinh, acosh, atanh);
    fn is_sign_positive(self) -> bool { self.0.is_sign_positive() }
    fn is_sign_negative(self) -> bool { self.0.is_sign_negative() }
    fn mul_add(self, a: Self, b: Self) -> Self { tick(); Cf(Float::mul_add(self.0, a.0, b.0)) }
    fn powi(self, n: i32) -> Self { Cf(Float::powi(self.0, n)) }
    fn powf(self, n: Self) -> Self { Cf(Float::powf(self.0, n.0)) }
    fn log(self, b: Self) -> Self { Cf(Float::log(self.0, b.0)) }
    fn max(self, o: Self) -> Self { tick(); Cf(Float::max(self.0, o.0)) }
    fn min(self, o: Self) -> Self { tick(); Cf(Float::min(self.0, o.0)) }
    #[allow(deprecated)]
    fn abs_sub(self, o: Self) -> Self { Cf(Float::abs_sub(self.0, o.0)) }
    fn hypot(self, o: Self) -> Self { Cf(Float::hypot(self.0, o.0)) }
    fn atan2(self, o: Self) -> Self { Cf(Float::atan2(self.0, o.0)) }
    fn sin_cos(self) -> (Self, Self) { let (a, b) = Float::sin_cos(self.0); (Cf(a), Cf(b)) }
}

/// Counting vertex index
#[derive(Debug)]
pub struct Ci(pub u32);
impl Clone for Ci { #[inline(always)] fn clone(&self) -> Self { tick(); Ci(self.0) } }
impl PartialEq for Ci { #[inline(always)] fn eq(&self, o: &Self) -> bool { tick(); self.0 == o.0 } }
impl Eq for Ci {}
