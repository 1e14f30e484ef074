//! Simulated caller types: every call the library makes into them is a seam of the simulator.
#![allow(clippy::suspicious_arithmetic_impl)]

use crate::sim::*;
use num_integer::Integer;
use num_traits::{Float, FloatConst, Inv, Num, NumCast, One, ToPrimitive, Zero};
use std::cmp::Ordering;
use std::num::FpCategory;
use std::ops::*;
use vecmat::traits::{NormL1, NormLInf};

// ---------------------------------------------------------------- exact arithmetic modulo a prime

pub const P: u64 = (1 << 61) - 1;
pub fn addm(a: u64, b: u64) -> u64 {
    let s = a + b;
    if s >= P {
        s - P
    } else {
        s
    }
}
pub fn subm(a: u64, b: u64) -> u64 {
    if a >= b {
        a - b
    } else {
        a + P - b
    }
}
pub fn negm(a: u64) -> u64 {
    subm(0, a)
}
pub fn mulm(a: u64, b: u64) -> u64 {
    ((a as u128 * b as u128) % P as u128) as u64
}
pub fn powm(mut a: u64, mut e: u64) -> u64 {
    let mut r = 1;
    while e > 0 {
        if e & 1 == 1 {
            r = mulm(r, a)
        }
        a = mulm(a, a);
        e >>= 1;
    }
    r
}
pub fn invm(a: u64) -> Option<u64> {
    if a == 0 {
        None
    } else {
        Some(powm(a, P - 2))
    }
}
pub fn divm(a: u64, b: u64) -> Option<u64> {
    Some(mulm(a, invm(b)?))
}
pub fn andm(a: u64, b: u64) -> u64 {
    (a & b) % P
}
pub fn orm(a: u64, b: u64) -> u64 {
    (a | b) % P
}
pub fn xorm(a: u64, b: u64) -> u64 {
    (a ^ b) % P
}
pub fn notm(a: u64) -> u64 {
    (!a & P) % P
}
pub fn l1m(a: u64) -> u64 {
    addm(mulm(a, 3), 1)
}
pub fn linfm(a: u64) -> u64 {
    addm(mulm(a, 5), 2)
}
/// What an interrupted assignment operator leaves behind.
pub const TORN: u64 = 0x0704_2704_2704_2704;

/// A drawn field element: small and special values first.
pub fn arg() -> u64 {
    match draw(8) {
        0 => draw(4),
        1 => draw(64),
        2 => P - 1 - draw(3),
        _ => draw(P),
    }
}
/// A drawn field element that is generic (collides with anything with negligible probability).
pub fn garg() -> u64 {
    1 + draw(P - 1)
}

// ---------------------------------------------------------------- Tok: tracked, move-only element

#[derive(Debug)]
pub struct Tok {
    magic: u32,
    id: u32,
    val: u64,
}
fn magic_of(id: u32) -> u32 {
    id.wrapping_mul(0x9E37_79B1) ^ 0x5AFE_C0DE
}
impl Tok {
    pub fn new(val: u64) -> Tok {
        let l = &mut sim().ledger;
        let id = l.dead.len() as u32;
        l.dead.push(0);
        l.vals.push(val);
        l.live += 1;
        Tok { magic: magic_of(id), id, val }
    }
    fn check(&self, what: &str) -> bool {
        let bad = {
            let l = &sim().ledger;
            if self.magic != magic_of(self.id) || self.id as usize >= l.dead.len() {
                Some("memory that holds no element")
            } else if l.dead[self.id as usize] != 0 {
                Some("an element that was already dropped")
            } else if l.vals[self.id as usize] != self.val {
                Some("an element with a corrupted value")
            } else {
                None
            }
        };
        if let Some(b) = bad {
            violation(C01, format!("bad-{}", what), format!("{} of {}", what, b));
            return false;
        }
        true
    }
    /// Value, checking that the element is alive.
    pub fn get(&self) -> u64 {
        self.check("use");
        self.val
    }
    fn set(&mut self, v: u64) {
        if self.check("assignment") {
            self.val = v;
            sim().ledger.vals[self.id as usize] = v;
        }
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        if !sim_active() {
            return;
        }
        if self.check("drop") {
            let l = &mut sim().ledger;
            l.dead[self.id as usize] = 1;
            l.live -= 1;
            let v = self.val;
            seam(Seam::Drop, v);
        }
    }
}
pub fn live() -> i64 {
    sim().ledger.live
}

// ---------------------------------------------------------------- Zst: tracked zero-sized element

#[derive(Debug)]
pub struct Zst;
impl Zst {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Zst {
        sim().ledger.zst_live += 1;
        Zst
    }
}
impl Drop for Zst {
    fn drop(&mut self) {
        if sim_active() {
            sim().ledger.zst_live -= 1;
            seam(Seam::Drop, 7);
        }
    }
}
impl Default for Zst {
    fn default() -> Self {
        seam(Seam::Init, 7);
        Zst::new()
    }
}
impl Clone for Zst {
    fn clone(&self) -> Self {
        seam(Seam::Clone, 7);
        Zst::new()
    }
}

// ---------------------------------------------------------------- Fp: exact Copy scalar

#[derive(Clone, Copy, Default)]
pub struct Fp(pub u64);
impl Fp {
    pub fn get(&self) -> u64 {
        self.0
    }
    pub fn new(v: u64) -> Fp {
        Fp(v)
    }
    fn set(&mut self, v: u64) {
        self.0 = v
    }
}
impl std::fmt::Debug for Fp {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}

macro_rules! binops {
    ($T:ident) => {
        binops!(@ $T, Add, add, AddAssign, add_assign, 1, |a, b| Some(addm(a, b)));
        binops!(@ $T, Sub, sub, SubAssign, sub_assign, 2, |a, b| Some(subm(a, b)));
        binops!(@ $T, Mul, mul, MulAssign, mul_assign, 3, |a, b| Some(mulm(a, b)));
        binops!(@ $T, Div, div, DivAssign, div_assign, 4, |a, b| divm(a, b));
        binops!(@ $T, Rem, rem, RemAssign, rem_assign, 5, |a, b| if b == 0 { None } else { Some(a % b) });
        binops!(@ $T, BitAnd, bitand, BitAndAssign, bitand_assign, 6, |a, b| Some(andm(a, b)));
        binops!(@ $T, BitOr, bitor, BitOrAssign, bitor_assign, 7, |a, b| Some(orm(a, b)));
        binops!(@ $T, BitXor, bitxor, BitXorAssign, bitxor_assign, 8, |a, b| Some(xorm(a, b)));
        impl Neg for $T {
            type Output = $T;
            fn neg(self) -> $T {
                let a = self.get();
                seam(Seam::Op, a ^ 9 << 61);
                #[allow(dropping_copy_types)]
                drop(self);
                $T::new(negm(a))
            }
        }
        impl Not for $T {
            type Output = $T;
            fn not(self) -> $T {
                let a = self.get();
                seam(Seam::Op, a ^ 10 << 60);
                #[allow(dropping_copy_types)]
                drop(self);
                $T::new(notm(a))
            }
        }
        impl Zero for $T {
            fn zero() -> $T {
                seam(Seam::Init, 0);
                $T::new(0)
            }
            fn is_zero(&self) -> bool {
                let a = self.get();
                seam(Seam::Cmp, a);
                a == 0
            }
        }
        impl One for $T {
            fn one() -> $T {
                seam(Seam::Init, 1);
                $T::new(1)
            }
        }
        impl PartialEq for $T {
            fn eq(&self, o: &$T) -> bool {
                let (a, b) = (self.get(), o.get());
                seam(Seam::Cmp, a ^ b.rotate_left(17));
                a == b
            }
        }
        impl Eq for $T {}
        impl PartialOrd for $T {
            fn partial_cmp(&self, o: &$T) -> Option<Ordering> {
                let (a, b) = (self.get(), o.get());
                seam(Seam::Cmp, a ^ b.rotate_left(18));
                a.partial_cmp(&b)
            }
        }
        impl Ord for $T {
            fn cmp(&self, o: &$T) -> Ordering {
                let (a, b) = (self.get(), o.get());
                seam(Seam::Cmp, a ^ b.rotate_left(18));
                a.cmp(&b)
            }
        }
        impl Num for $T {
            type FromStrRadixErr = ();
            fn from_str_radix(_: &str, _: u32) -> Result<$T, ()> {
                Err(())
            }
        }
        impl NormL1 for $T {
            type Output = $T;
            fn norm_l1(self) -> $T {
                let a = self.get();
                seam(Seam::Op, a ^ 11 << 60);
                #[allow(dropping_copy_types)]
                drop(self);
                $T::new(l1m(a))
            }
        }
        impl NormLInf for $T {
            type Output = $T;
            fn norm_l_inf(self) -> $T {
                let a = self.get();
                seam(Seam::Op, a ^ 12 << 60);
                #[allow(dropping_copy_types)]
                drop(self);
                $T::new(linfm(a))
            }
        }
        impl Integer for $T {
            fn div_floor(&self, o: &$T) -> $T {
                let (a, b) = (self.get(), o.get());
                seam(Seam::Op, a ^ b.rotate_left(20));
                if b == 0 { div_zero() }
                $T::new(a / b)
            }
            fn mod_floor(&self, o: &$T) -> $T {
                let (a, b) = (self.get(), o.get());
                seam(Seam::Op, a ^ b.rotate_left(21));
                if b == 0 { div_zero() }
                $T::new(a % b)
            }
            fn gcd(&self, o: &$T) -> $T { $T::new(self.get().gcd(&o.get()) % P) }
            fn lcm(&self, o: &$T) -> $T { $T::new(mulm(self.get(), o.get())) }
            fn is_multiple_of(&self, o: &$T) -> bool { o.get() != 0 && self.get() % o.get() == 0 }
            fn is_even(&self) -> bool { self.get() % 2 == 0 }
            fn is_odd(&self) -> bool { self.get() % 2 == 1 }
            fn div_rem(&self, o: &$T) -> ($T, $T) {
                let (a, b) = (self.get(), o.get());
                seam(Seam::Op, a ^ b.rotate_left(22));
                if b == 0 { div_zero() }
                ($T::new(a / b), $T::new(a % b))
            }
        }
    };
    (@ $T:ident, $Tr:ident, $f:ident, $TrA:ident, $fa:ident, $code:expr, $m:expr) => {
        impl $Tr for $T {
            type Output = $T;
            fn $f(self, o: $T) -> $T {
                let (a, b) = (self.get(), o.get());
                seam(Seam::Op, (a ^ b.rotate_left(13)).wrapping_add($code));
                let m: fn(u64, u64) -> Option<u64> = $m;
                // operands go first: a destructor that panics after the result was made would leak the result
                #[allow(dropping_copy_types)]
                {
                    drop(self);
                    drop(o);
                }
                match m(a, b) {
                    Some(v) => $T::new(v),
                    None => div_zero(),
                }
            }
        }
        impl $TrA for $T {
            fn $fa(&mut self, o: $T) {
                let (a, b) = (self.get(), o.get());
                if seam(Seam::OpAssign, (a ^ b.rotate_left(13)).wrapping_add($code)) {
                    self.set(TORN);
                    blow_torn();
                }
                let m: fn(u64, u64) -> Option<u64> = $m;
                match m(a, b) {
                    Some(v) => self.set(v),
                    None => div_zero(),
                }
            }
        }
    };
}
binops!(Tok);
binops!(Fp);

impl Clone for Tok {
    fn clone(&self) -> Tok {
        let v = self.get();
        seam(Seam::Clone, v);
        Tok::new(v)
    }
}
impl Default for Tok {
    fn default() -> Tok {
        seam(Seam::Init, 2);
        Tok::new(DEFAULT)
    }
}
pub const DEFAULT: u64 = 0xDEF;

impl Inv for Fp {
    type Output = Fp;
    fn inv(self) -> Fp {
        seam(Seam::Op, self.0 ^ 13 << 60);
        match invm(self.0) {
            Some(v) => Fp(v),
            None => div_zero(),
        }
    }
}
impl ToPrimitive for Fp {
    fn to_i64(&self) -> Option<i64> {
        Some(self.0 as i64)
    }
    fn to_u64(&self) -> Option<u64> {
        Some(self.0)
    }
}
impl NumCast for Fp {
    fn from<T: ToPrimitive>(n: T) -> Option<Fp> {
        let v = n.to_f64()?;
        seam(Seam::Init, v.to_bits());
        let i = v as i64;
        if i as f64 != v || i.unsigned_abs() >= P {
            return None;
        }
        Some(Fp(if i < 0 { P - i.unsigned_abs() } else { i as u64 }))
    }
}

// ---------------------------------------------------------------- Fl: float whose operations are seams

#[derive(Clone, Copy, Default)]
pub struct Fl(pub f64);
impl std::fmt::Debug for Fl {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
macro_rules! flbin {
    ($($Tr:ident $f:ident $TrA:ident $fa:ident $op:tt $code:expr;)*) => {$(
        impl $Tr for Fl {
            type Output = Fl;
            fn $f(self, o: Fl) -> Fl {
                seam(Seam::Op, (self.0.to_bits() ^ o.0.to_bits().rotate_left(13)).wrapping_add($code));
                Fl(self.0 $op o.0)
            }
        }
        impl $TrA for Fl {
            fn $fa(&mut self, o: Fl) {
                if seam(Seam::OpAssign, (self.0.to_bits() ^ o.0.to_bits().rotate_left(13)).wrapping_add($code)) {
                    self.0 = f64::from_bits(TORN);
                    blow_torn();
                }
                self.0 = self.0 $op o.0;
            }
        }
    )*};
}
flbin! {
    Add add AddAssign add_assign + 1;
    Sub sub SubAssign sub_assign - 2;
    Mul mul MulAssign mul_assign * 3;
    Div div DivAssign div_assign / 4;
    Rem rem RemAssign rem_assign % 5;
}
impl Neg for Fl {
    type Output = Fl;
    fn neg(self) -> Fl {
        seam(Seam::Op, self.0.to_bits() ^ 9);
        Fl(-self.0)
    }
}
impl Zero for Fl {
    fn zero() -> Fl {
        seam(Seam::Init, 0);
        Fl(0.0)
    }
    fn is_zero(&self) -> bool {
        seam(Seam::Cmp, self.0.to_bits());
        self.0 == 0.0
    }
}
impl One for Fl {
    fn one() -> Fl {
        seam(Seam::Init, 1);
        Fl(1.0)
    }
}
impl PartialEq for Fl {
    fn eq(&self, o: &Fl) -> bool {
        seam(Seam::Cmp, self.0.to_bits());
        self.0 == o.0
    }
}
impl PartialOrd for Fl {
    fn partial_cmp(&self, o: &Fl) -> Option<Ordering> {
        seam(Seam::Cmp, self.0.to_bits());
        self.0.partial_cmp(&o.0)
    }
}
impl Num for Fl {
    type FromStrRadixErr = ();
    fn from_str_radix(s: &str, radix: u32) -> Result<Fl, ()> {
        seam(Seam::Op, s.len() as u64 ^ 0x57A);
        if radix == 10 {
            s.parse().map(Fl).map_err(|_| ())
        } else {
            Err(())
        }
    }
}
impl ToPrimitive for Fl {
    fn to_i64(&self) -> Option<i64> {
        self.0.to_i64()
    }
    fn to_u64(&self) -> Option<u64> {
        self.0.to_u64()
    }
    fn to_f64(&self) -> Option<f64> {
        Some(self.0)
    }
}
impl NumCast for Fl {
    fn from<T: ToPrimitive>(n: T) -> Option<Fl> {
        let v = n.to_f64()?;
        seam(Seam::Init, v.to_bits());
        Some(Fl(v))
    }
}
impl Inv for Fl {
    type Output = Fl;
    fn inv(self) -> Fl {
        seam(Seam::Op, self.0.to_bits() ^ 13);
        Fl(1.0 / self.0)
    }
}
impl NormL1 for Fl {
    type Output = Fl;
    fn norm_l1(self) -> Fl {
        seam(Seam::Op, self.0.to_bits() ^ 14);
        Fl(self.0.abs())
    }
}
impl NormLInf for Fl {
    type Output = Fl;
    fn norm_l_inf(self) -> Fl {
        seam(Seam::Op, self.0.to_bits() ^ 15);
        Fl(self.0.abs())
    }
}
macro_rules! flun {
    ($($f:ident)*) => { $( fn $f(self) -> Fl { seam(Seam::Op, self.0.to_bits() ^ 0xF00); Fl(f64::$f(self.0)) } )* };
}
macro_rules! flbinf {
    ($($f:ident)*) => { $( fn $f(self, o: Fl) -> Fl { seam(Seam::Op, self.0.to_bits() ^ o.0.to_bits().rotate_left(7)); Fl(f64::$f(self.0, o.0)) } )* };
}
macro_rules! flpred {
    ($($f:ident)*) => { $( fn $f(self) -> bool { f64::$f(self.0) } )* };
}
macro_rules! flconst {
    ($($f:ident $e:expr;)*) => { $( fn $f() -> Fl { seam(Seam::Init, 3); Fl($e) } )* };
}
impl Float for Fl {
    flconst! { nan f64::NAN; infinity f64::INFINITY; neg_infinity f64::NEG_INFINITY; neg_zero -0.0;
        min_value f64::MIN; max_value f64::MAX; min_positive_value f64::MIN_POSITIVE; epsilon f64::EPSILON; }
    flpred! { is_nan is_infinite is_finite is_normal is_sign_positive is_sign_negative }
    fn classify(self) -> FpCategory {
        self.0.classify()
    }
    flun! { floor ceil round trunc fract abs signum recip sqrt exp exp2 ln log2 log10 cbrt sin cos tan
        asin acos atan exp_m1 ln_1p sinh cosh tanh asinh acosh atanh }
    flbinf! { powf log max min hypot atan2 }
    fn abs_sub(self, o: Fl) -> Fl {
        seam(Seam::Op, self.0.to_bits() ^ o.0.to_bits().rotate_left(8));
        Fl(absdiff(self.0, o.0))
    }
    fn mul_add(self, a: Fl, b: Fl) -> Fl {
        seam(Seam::Op, self.0.to_bits() ^ a.0.to_bits().rotate_left(7) ^ b.0.to_bits().rotate_left(9));
        Fl(self.0.mul_add(a.0, b.0))
    }
    fn powi(self, n: i32) -> Fl {
        seam(Seam::Op, self.0.to_bits() ^ (n as u64) << 7);
        Fl(self.0.powi(n))
    }
    fn sin_cos(self) -> (Fl, Fl) {
        seam(Seam::Op, self.0.to_bits() ^ 0xF01);
        let (a, b) = self.0.sin_cos();
        (Fl(a), Fl(b))
    }
    fn integer_decode(self) -> (u64, i16, i8) {
        Float::integer_decode(self.0)
    }
}
pub fn absdiff(a: f64, b: f64) -> f64 {
    if a <= b {
        0.0
    } else {
        a - b
    }
}
macro_rules! flconsts {
    ($($f:ident)*) => { $( fn $f() -> Fl { seam(Seam::Init, 4); Fl(<f64 as FloatConst>::$f()) } )* };
}
#[allow(non_snake_case)]
impl FloatConst for Fl {
    flconsts! { E FRAC_1_PI FRAC_1_SQRT_2 FRAC_2_PI FRAC_2_SQRT_PI FRAC_PI_2 FRAC_PI_3 FRAC_PI_4 FRAC_PI_6
        FRAC_PI_8 LN_10 LN_2 LOG10_E LOG2_E PI SQRT_2 }
}
/// A drawn moderate float (dyadic, so that it prints short).
pub fn farg() -> f64 {
    let k = draw(8);
    let m = draw(1 << 20) as f64 / 1024.0 / 64.0; // 0..16
    match k {
        0 => draw(4) as f64,
        1 => -1.0 - draw(3) as f64,
        2 => m,
        3 => -m,
        4 => m / 16.0,
        5 => -m / 16.0,
        6 => m / 4.0,
        _ => -m / 4.0,
    }
}
