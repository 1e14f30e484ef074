//! Random objects under faulty generators (C10) and their composition from parts under sharing and aborts (C11).

use crate::elems::*;
use crate::sim::*;
use num_traits::Float;
use rand_::distributions::Distribution;
use rand_::{Rng, RngCore};
use std::panic::resume_unwind;
use vecmat::complex::Moebius;
use vecmat::distr::{Invertible, NonZero, Normal, Uniform, Unit};
use vecmat::traits::{Epsilon, NormL1};
use vecmat::transform::{Affine, Linear, Rotation2, Rotation3, Scale, Shift};
use vecmat::vector::VectorDistribution;
use vecmat::matrix::MatrixDistribution;
use vecmat::{Complex, Matrix, Quaternion, Transform, Vector};

// ---------------------------------------------------------------- the scalar whose normal law is caller code

pub const EPS: f64 = f64::EPSILON;
/// Many of its values sit on and around zero and epsilon.
impl Distribution<Fl> for Normal {
    fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> Fl {
        let w = rng.next_u64();
        seam(Seam::Inner, w);
        let k = (w >> 3) % 1024;
        let s = if w & (1 << 40) == 0 { 1.0 } else { -1.0 };
        Fl(match w % 8 {
            0 => 0.0,
            1 => s * EPS * (k % 17) as f64 / 8.0,
            2 => s * 1e-8 * (k % 33) as f64 / 16.0,
            3 => s,
            _ => s * (k + 1) as f64 / 512.0,
        })
    }
}
impl Epsilon for Fl {
    fn is_epsilon(&self) -> bool {
        seam(Seam::Cmp, self.0.to_bits());
        self.0.abs() <= EPS
    }
}

/// Floats as the checks see them.
pub trait Real: Float + Copy {
    const MACHINE: f64;
    fn f(self) -> f64;
    fn bits(self) -> u64 {
        self.f().to_bits()
    }
}
impl Real for f32 {
    const MACHINE: f64 = f32::EPSILON as f64;
    fn f(self) -> f64 {
        self as f64
    }
}
impl Real for f64 {
    const MACHINE: f64 = f64::EPSILON;
    fn f(self) -> f64 {
        self
    }
}
impl Real for Fl {
    const MACHINE: f64 = f64::EPSILON;
    fn f(self) -> f64 {
        self.0
    }
}

// ---------------------------------------------------------------- generators

#[derive(Clone)]
enum Phase {
    Stuck(u64),
    /// Healthy words with some bits forced.
    Bias(u64, u64),
    Period(Vec<u64>),
    /// Independent picks from the extreme words.
    Extreme,
    /// Healthy words, each repeated.
    Burst(u64),
}
/// A stream of words: faulty phases first, healthy ever after.
#[derive(Clone)]
pub struct Words {
    phases: Vec<(Phase, u64)>,
    pos: u64,
    noise: Rng64,
    burst: (u64, u64),
    pub drawn: u64,
    /// Words drawn since the stream became healthy.
    pub sound: u64,
}
impl Clone for Rng64 {
    fn clone(&self) -> Rng64 {
        Rng64(self.0)
    }
}
/// Words at which conversions to floats do something special.
fn special(w: u64) -> u64 {
    let k = w / 16 % 8;
    match w % 16 {
        0 => 0,
        1 => !0,
        2 => 1 << 63,
        3 => (1 << 63) - 1,
        4 => 1 << 62,
        5 => 3 << 62,
        6 => (k + 1) << 12,
        7 => !(k << 12),
        8 => (1 << 63) | (k << 12),
        9 => (1 << 63) - (k << 12),
        10 => (k + 1) << 41,
        11 => !(k << 41),
        12 => (1 << 63) | (k << 41),
        13 => (1 << 63) - (k << 41),
        14 => k << 61,
        _ => 0xFFF << (k * 7),
    }
}
/// Words for two single-precision normal components that form a vector exactly as long as the machine epsilon
/// (found by a search; followed by words that make zero components).
const THRESHOLD: [[u64; 4]; 6] = [
    [0x69cbe0000000000, 0x8000000000000000, 0xf99fb60000000000, 0x8000000000000000],
    [0xd5e1e0000000000, 0x8000000000000000, 0x118fa80000000000, 0x7ffffe0000000000],
    [0x141d780000000000, 0x8000000000000000, 0xf942460000000000, 0x8000000000000000],
    [0x2195a80000000000, 0x8000000000000000, 0x11289a0000000000, 0x7ffffe0000000000],
    [0x50674c0000000000, 0x8000000000000000, 0x9f31a0000000000, 0x8000020000000000],
    [0x1a2ac0000000000, 0x8000020000000000, 0x36ca40000000000, 0x7ffffc0000000000],
];
impl Words {
    pub fn healthy(seed: u64) -> Words {
        Words { phases: vec![], pos: 0, noise: Rng64(seed), burst: (0, 0), drawn: 0, sound: 0 }
    }
    fn drawn_phases(n: usize) -> Words {
        let mut phases = vec![];
        for _ in 0..n {
            let len = 1 + draw([4, 12, 40, 150][pick(4)]);
            let p = match pick(7) {
                6 => {
                    let mut words = THRESHOLD[pick(THRESHOLD.len())].to_vec();
                    words.resize(4 + 2 * pick(3), 0);
                    Phase::Period(words)
                }
                0 => Phase::Stuck(special(draw(128))),
                1 => Phase::Stuck(draw(0)),
                2 => {
                    let (a, b) = (draw(0), draw(0));
                    match pick(3) {
                        0 => Phase::Bias(a & b, 0),
                        1 => Phase::Bias(!0, a | b),
                        _ => Phase::Bias(!(a & b), 0),
                    }
                }
                3 => {
                    let mut words = vec![];
                    for _ in 0..1 + pick(5) {
                        words.push(if pick(2) == 0 { special(draw(128)) } else { draw(0) });
                    }
                    Phase::Period(words)
                }
                4 => Phase::Extreme,
                _ => Phase::Burst(2 + draw(8)),
            };
            phases.push((p, len));
        }
        Words { phases, ..Words::healthy(draw(0)) }
    }
    /// A word of a stream without faults.
    pub fn plain(&mut self) -> u64 {
        self.drawn += 1;
        self.noise.next()
    }
    fn next(&mut self) -> u64 {
        self.drawn += 1;
        self.pos += 1;
        let w = self.noise.next();
        let mut at = self.pos - 1;
        for (p, len) in &self.phases {
            if at >= *len {
                at -= len;
                continue;
            }
            return match p {
                Phase::Stuck(w) => {
                    extra(X::RngStuck);
                    *w
                }
                Phase::Bias(and, or) => {
                    extra(X::RngBias);
                    w & and | or
                }
                Phase::Period(v) => {
                    extra(X::RngPeriod);
                    v[at as usize % v.len()]
                }
                Phase::Extreme => {
                    extra(X::RngExtreme);
                    special(w >> 7)
                }
                Phase::Burst(n) => {
                    extra(X::RngBurst);
                    if self.burst.1 == 0 {
                        self.burst = (w, *n);
                    }
                    self.burst.1 -= 1;
                    self.burst.0
                }
            };
        }
        self.sound += 1;
        w
    }
}
/// Words after which a sampler must have returned, once its source is healthy.
const PATIENCE: u64 = 10_000;

/// The stream that samplers of several tasks share.
struct Shared(std::cell::UnsafeCell<Option<Words>>);
unsafe impl Sync for Shared {}
static SHARED: Shared = Shared(std::cell::UnsafeCell::new(None));
fn shared() -> &'static mut Words {
    unsafe { (*SHARED.0.get()).as_mut().unwrap() }
}

/// One request to a generator, as the library made it.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Draw {
    W32(u32),
    W64(u64),
    Byte(u8),
}
/// The generator handed to the library.
struct Probe<'a> {
    own: Option<&'a mut Words>,
    log: Vec<Draw>,
    since: u64,
}
impl<'a> Probe<'a> {
    fn new(own: Option<&'a mut Words>) -> Probe<'a> {
        extra(if own.is_some() { X::RngOwn } else { X::RngShared });
        let mut p = Probe { own, log: vec![], since: 0 };
        p.since = p.words().sound;
        p
    }
    fn words(&mut self) -> &mut Words {
        match &mut self.own {
            Some(w) => w,
            None => shared(),
        }
    }
    fn word(&mut self) -> u64 {
        seam(Seam::Rng, self.log.len() as u64);
        let w = self.words().next();
        note(w);
        let since = self.since;
        if self.words().sound.wrapping_sub(since) > PATIENCE {
            resume_unwind(Box::new(StepCap));
        }
        w
    }
}
impl RngCore for Probe<'_> {
    fn next_u32(&mut self) -> u32 {
        let w = (self.word() >> 32) as u32;
        self.log.push(Draw::W32(w));
        w
    }
    fn next_u64(&mut self) -> u64 {
        let w = self.word();
        self.log.push(Draw::W64(w));
        w
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for b in dest {
            *b = self.word() as u8;
            self.log.push(Draw::Byte(*b));
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand_::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
/// Hands out recorded draws again.
struct Tape {
    log: Vec<Draw>,
    at: usize,
    strayed: bool,
}
impl Tape {
    fn next(&mut self) -> Draw {
        let d = self.log.get(self.at).copied().unwrap_or_else(|| {
            self.strayed = true;
            // something a rejecting sampler will accept in the end
            Draw::W64(mix64(self.at as u64))
        });
        self.at += 1;
        if self.at > self.log.len() + PATIENCE as usize {
            resume_unwind(Box::new(StepCap));
        }
        d
    }
    fn spent(&self) -> bool {
        !self.strayed && self.at == self.log.len()
    }
}
impl RngCore for Tape {
    fn next_u32(&mut self) -> u32 {
        match self.next() {
            Draw::W32(w) => w,
            Draw::W64(w) => {
                self.strayed = true;
                w as u32
            }
            Draw::Byte(_) => {
                self.strayed = true;
                0
            }
        }
    }
    fn next_u64(&mut self) -> u64 {
        match self.next() {
            Draw::W64(w) => w,
            Draw::W32(w) => {
                self.strayed = true;
                w as u64
            }
            Draw::Byte(_) => {
                self.strayed = true;
                0
            }
        }
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for b in dest {
            *b = match self.next() {
                Draw::Byte(b) => b,
                _ => {
                    self.strayed = true;
                    0
                }
            }
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand_::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

// ---------------------------------------------------------------- C10: guarantees

const G: u32 = C10;

/// Sample until the generator stops panicking; judge what comes out.
fn guarantee<T>(name: &str, words: &mut Words, f: impl Fn(&mut Probe) -> T, judge: impl Fn(&T) -> Option<String>) {
    for k in 0..5 {
        let start = words.drawn;
        let mask = if k < 3 { ALL_SEAMS } else { 0 };
        let r = exec(name, G, mask, || {
            let mut p = Probe::new(Some(words));
            f(&mut p)
        });
        match r {
            Ok(v) => {
                if words.drawn - start > 80 {
                    extra(X::Rejected);
                }
                if let Some(msg) = judge(&v) {
                    violation(G, format!("guarantee:{}", name), format!("{}: {}", name, msg));
                }
                return;
            }
            Err(Stop::Injected) => extra(X::Retry),
            Err(_) => return,
        }
    }
}
fn finite(a: &[f64]) -> Option<String> {
    a.iter().find(|x| !x.is_finite()).map(|_| format!("sampled {:?}", a))
}
fn norm(a: &[f64]) -> f64 {
    a.iter().map(|x| x * x).sum::<f64>().sqrt()
}
fn nonzero<T: Real>(a: &[f64]) -> Option<String> {
    finite(a).or_else(|| {
        // the norm as the type itself computes it
        let length = if T::MACHINE == f64::EPSILON {
            norm(a)
        } else {
            a.iter().map(|x| (*x as f32) * (*x as f32)).sum::<f32>().sqrt() as f64
        };
        if length > T::MACHINE {
            None
        } else {
            Some(format!("sampled {:?} of norm {:e}", a, norm(a)))
        }
    })
}
fn unit<T: Real>(a: &[f64]) -> Option<String> {
    finite(a).or_else(|| {
        if (norm(a) - 1.0).abs() < 16.0 * T::MACHINE * (a.len() as f64 + 1.0) {
            None
        } else {
            Some(format!("sampled {:?} of norm {}", a, norm(a)))
        }
    })
}
/// Determinant, and a bound of what rounding in T may do to it.
fn detf(n: usize, a: &[f64], unit: f64) -> (f64, f64) {
    fn rec(n: usize, a: &[f64], rows: &mut Vec<usize>, col: usize) -> (f64, f64) {
        if col == n {
            return (1.0, 1.0);
        }
        let (mut d, mut m) = (0.0, 0.0);
        for k in 0..rows.len() {
            let r = rows.remove(k);
            let (e, f) = rec(n, a, rows, col + 1);
            rows.insert(k, r);
            d += if k % 2 == 0 { a[r * n + col] * e } else { -a[r * n + col] * e };
            m += a[r * n + col].abs() * f;
        }
        (d, m)
    }
    let (d, m) = rec(n, a, &mut (0..n).collect(), 0);
    (d, m * unit * 16.0 * (n * n) as f64)
}
fn invertible<T: Real, const N: usize>(m: Matrix<T, N, N>, own_det: f64, inverse: Option<Vec<f64>>) -> Option<String> {
    let a: Vec<f64> = m.as_array_of_arrays().iter().flatten().map(|x| x.f()).collect();
    finite(&a).or_else(|| {
        let (d, slack) = detf(N, &a, T::MACHINE);
        if d.abs() + slack <= T::MACHINE * (1.0 - 8.0 * T::MACHINE) || own_det.abs() <= T::MACHINE {
            return Some(format!("sampled {:?} of determinant {:e} ({:e})", a, d, own_det));
        }
        inverse.and_then(|i| finite(&i)).map(|i| format!("the inverse of {:?} has entries that are not finite: {}", a, i))
    })
}
fn vr<T: Real, const N: usize>(v: Vector<T, N>) -> Vec<f64> {
    v.as_array().iter().map(|x| x.f()).collect()
}
fn mr<T: Real, const M: usize, const N: usize>(m: Matrix<T, M, N>) -> Vec<f64> {
    m.as_array_of_arrays().iter().flatten().map(|x| x.f()).collect()
}
fn cr<T: Real>(c: Complex<T>) -> Vec<f64> {
    vec![c.re().f(), c.im().f()]
}
fn qr<T: Real>(q: Quaternion<T>) -> Vec<f64> {
    vec![q.w().f(), q.x().f(), q.y().f(), q.z().f()]
}
fn proper<T: Real>(n: usize, a: &[f64]) -> Option<String> {
    finite(a).or_else(|| {
        for i in 0..n {
            for j in 0..n {
                let d: f64 = (0..n).map(|k| a[k * n + i] * a[k * n + j]).sum();
                if (d - if i == j { 1.0 } else { 0.0 }).abs() > 64.0 * T::MACHINE {
                    return Some(format!("{:?} is no orthogonal matrix", a));
                }
            }
        }
        if (detf(n, a, 0.0).0 - 1.0).abs() > 64.0 * T::MACHINE {
            return Some(format!("{:?} is no proper rotation", a));
        }
        None
    })
}

/// Everything that a scalar type offers.
fn objects<T: Real>(ty: &str, w: &mut Words)
where
    Normal: Distribution<T>,
    T: NormL1<Output = T> + Epsilon,
{
    let nm = |x: &str| format!("{} of {}", x, ty);
    macro_rules! nz {
        ($($k:literal $n:literal)*) => {
            match (pick(10), pick(2)) {
                $(
                    ($k, 0) => guarantee(&nm(concat!("NonZero Vector", $n)), w, |r| -> Vector<T, $n> { r.sample(&NonZero) }, |v| nonzero::<T>(&vr(*v))),
                    ($k, _) => guarantee(&nm(concat!("Unit Vector", $n)), w, |r| -> Vector<T, $n> { r.sample(&Unit) }, |v| unit::<T>(&vr(*v))),
                )*
                _ => {}
            }
        };
    }
    fn inv<T: Real + NormL1<Output = T> + Epsilon, const N: usize>(name: &str, w: &mut Words, how: usize)
    where
        Normal: Distribution<T>,
    {
        // the caller's scalar may fail while the guarantee is judged, so that belongs to the operation
        guarantee(name, w, |r| {
            let m: Matrix<T, N, N> = match how {
                0 => r.sample(&Invertible),
                1 => {
                    let l: Linear<T, N> = r.sample(&Invertible);
                    l.into_matrix()
                }
                _ => {
                    let l: Affine<T, N> = r.sample(&Invertible);
                    l.linear().into_matrix()
                }
            };
            (m, m.det().f(), mr(m.inv()))
        }, |(m, d, i)| invertible(*m, *d, Some(i.clone())));
    }
    match pick(12) {
        0..=2 => nz!(0 1  1 2  2 3  3 4  4 7  5 9  6 17  7 5  8 6  9 8),
        3 => guarantee(&nm("NonZero Complex"), w, |r| -> Complex<T> { r.sample(&NonZero) }, |v| nonzero::<T>(&cr(*v))),
        4 => guarantee(&nm("Unit Complex"), w, |r| -> Complex<T> { r.sample(&Unit) }, |v| unit::<T>(&cr(*v))),
        5 => guarantee(&nm("NonZero Quaternion"), w, |r| -> Quaternion<T> { r.sample(&NonZero) }, |v| nonzero::<T>(&qr(*v))),
        6 => guarantee(&nm("Unit Quaternion"), w, |r| -> Quaternion<T> { r.sample(&Unit) }, |v| unit::<T>(&qr(*v))),
        7..=9 => {
            let how = pick(3);
            let what = ["Matrix", "Linear", "Affine"][how];
            match pick(6) {
                0 => inv::<T, 1>(&nm(&format!("Invertible {}1", what)), w, how),
                1 => inv::<T, 2>(&nm(&format!("Invertible {}2", what)), w, how),
                2 => inv::<T, 3>(&nm(&format!("Invertible {}3", what)), w, how),
                3 => inv::<T, 4>(&nm(&format!("Invertible {}4", what)), w, how),
                4 => inv::<T, 5>(&nm(&format!("Invertible {}5", what)), w, how),
                _ => inv::<T, 6>(&nm(&format!("Invertible {}6", what)), w, how),
            }
        }
        10 => guarantee(&nm("Invertible Moebius"), w, |r| {
            let m: Moebius<T> = r.sample(&Invertible);
            let i = m.inv().into_matrix();
            (m.into_matrix(), m.det().f(), mr(i))
        }, |(m, d, i)| invertible(*m, *d, Some(i.clone()))),
        _ => {
            guarantee(&nm("Rotation3 of Unit"), w, |r| {
                let q: Quaternion<T> = r.sample(&Unit);
                let x = Rotation3::from(q);
                // columns are the images of the axes
                let e = |k: usize| vr(x.apply(Vector::from(core::array::from_fn::<T, 3, _>(|i| if i == k { T::one() } else { T::zero() }))));
                (0..3).flat_map(e).collect::<Vec<f64>>()
            }, |a| proper::<T>(3, a));
        }
    }
}
macro_rules! primitive {
    ($f:ident $T:ident) => {
        fn $f(w: &mut Words) {
            let nm = |x: &str| format!("{} of {}", x, stringify!($T));
            match pick(16) {
                0 => guarantee(&nm("Normal"), w, |r| -> $T { r.sample(&Normal) }, |x| finite(&[x.f()])),
                1 => guarantee(&nm("Normal Vector3"), w, |r| -> Vector<$T, 3> { r.sample(&Normal) }, |x| finite(&vr(*x))),
                2 => guarantee(&nm("Normal Matrix2x3"), w, |r| -> Matrix<$T, 2, 3> { r.sample(&Normal) }, |x| finite(&mr(*x))),
                3 => guarantee(&nm("Normal Complex"), w, |r| -> Complex<$T> { r.sample(&Normal) }, |x| finite(&cr(*x))),
                4 => guarantee(&nm("Normal Quaternion"), w, |r| -> Quaternion<$T> { r.sample(&Normal) }, |x| finite(&qr(*x))),
                5 => guarantee(&nm("Normal Shift2"), w, |r| -> Shift<$T, 2> { r.sample(&Normal) }, |x| finite(&vr(x.into_vector()))),
                6 => guarantee(&nm("Normal Linear2"), w, |r| -> Linear<$T, 2> { r.sample(&Normal) }, |x| finite(&mr(x.into_matrix()))),
                7 => guarantee(&nm("Normal Scale"), w, |r| -> Scale<$T> { r.sample(&Normal) }, |x| finite(&[x.into_mag().f()])),
                8 => guarantee(&nm("Normal Affine3"), w, |r| -> Affine<$T, 3> { r.sample(&Normal) },
                    |x| finite(&[mr(x.linear().into_matrix()), vr(x.shift().into_vector())].concat())),
                9 | 10 => guarantee(&nm("Uniform Rotation2"), w, |r| -> Rotation2<$T> { r.sample(&Uniform) },
                    |x| unit::<$T>(&cr(x.into_complex())).or_else(|| proper::<$T>(2, &mr(x.to_linear().into_matrix())))),
                11..=13 => guarantee(&nm("Uniform Rotation3"), w, |r| -> Rotation3<$T> { r.sample(&Uniform) },
                    |x| unit::<$T>(&qr(x.into_quaternion())).or_else(|| proper::<$T>(3, &mr(x.to_linear().into_matrix())))),
                14 => guarantee(&nm("Invertible Moebius of Complex"), w, |r| -> Moebius<Complex<$T>> { r.sample(&Invertible) }, |m| {
                    let a: Vec<f64> = [m.a(), m.b(), m.c(), m.d()].iter().flat_map(|c| cr(*c)).collect();
                    let i = m.inv();
                    let b: Vec<f64> = [i.a(), i.b(), i.c(), i.d()].iter().flat_map(|c| cr(*c)).collect();
                    let d = cr(m.det());
                    let l1 = d[0].abs() + d[1].abs();
                    if l1 <= <$T as Real>::MACHINE * (1.0 - 1e-6) {
                        return Some(format!("sampled {:?} of determinant {:?}", a, d));
                    }
                    finite(&a).or_else(|| finite(&b).map(|b| format!("the inverse of {:?} is not finite: {}", a, b)))
                }),
                _ => guarantee(&nm("look_at of Unit"), w, |r| -> Vector<$T, 3> { r.sample(&Unit) }, |v| {
                    let l = mr(Linear::look_at_any(*v).into_matrix());
                    finite(&vr(*v)).or_else(|| finite(&l))
                }),
            }
        }
    };
}
primitive!(primitive32 f32);
primitive!(primitive64 f64);

pub fn guarantee_machine() {
    swarm();
    let n = 1 + sdraw(4);
    let phases = sdraw(4) as usize;
    let mut w = Words::drawn_phases(phases);
    for _ in 0..n {
        trace(|| format!("words drawn so far: {}", w.drawn));
        match pick(6) {
            0 => objects::<f32>("f32", &mut w),
            1 => objects::<f64>("f64", &mut w),
            2 => objects::<Fl>("Fl", &mut w),
            3 | 4 => primitive32(&mut w),
            _ => primitive64(&mut w),
        }
        if !sim().viol.is_empty() {
            return;
        }
    }
}

// ---------------------------------------------------------------- C11: conservation

const K: u32 = C11;

type Sampler = fn(&mut dyn RngCore) -> Vec<u64>;
struct Pair {
    name: &'static str,
    whole: Sampler,
    parts: Sampler,
}

fn fb(a: &[f64]) -> Vec<u64> {
    a.iter().map(|x| x.to_bits()).collect()
}
fn tb<const N: usize>(v: &Vector<Tok, N>) -> Vec<u64> {
    v.as_array().iter().map(|t| t.get()).collect()
}
/// A caller's distribution: draws a few words and makes a value from them.
struct Scripted;
impl Distribution<Tok> for Scripted {
    fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> Tok {
        let a = rng.next_u64();
        seam(Seam::Inner, a);
        let mut h = a;
        for _ in 0..a % 3 {
            h = mix64(h ^ rng.next_u32() as u64);
        }
        extra_inner();
        Tok::new(h % P)
    }
}
struct Calls(std::cell::UnsafeCell<[u32; MAX_TASKS]>);
unsafe impl Sync for Calls {}
static CALLS: Calls = Calls(std::cell::UnsafeCell::new([0; MAX_TASKS]));
fn calls() -> &'static mut u32 {
    unsafe { &mut (*CALLS.0.get())[sim().cur] }
}
fn extra_inner() {
    *calls() += 1;
}

fn normals<T: Real>(r: &mut dyn RngCore, n: usize) -> Vec<u64>
where
    Normal: Distribution<T>,
{
    (0..n).map(|_| r.sample::<T, _>(&Normal).bits()).collect()
}
macro_rules! pairs {
    ($out:ident $T:ident $F:ident) => {
        pub fn $out() -> Vec<Pair> {
            fn n<const K: usize>(r: &mut dyn RngCore) -> Vec<u64> {
                normals::<$T>(r, K)
            }
            vec![
                Pair { name: concat!("Normal ", stringify!($T)), whole: n::<1>, parts: n::<1> },
                Pair { name: concat!("Normal Vector0 of ", stringify!($T)), whole: |r| fb(&vr::<$T, 0>(r.sample(&Normal))), parts: n::<0> },
                Pair { name: concat!("Normal Vector1 of ", stringify!($T)), whole: |r| fb(&vr::<$T, 1>(r.sample(&Normal))), parts: n::<1> },
                Pair { name: concat!("Normal Vector2 of ", stringify!($T)), whole: |r| fb(&vr::<$T, 2>(r.sample(&Normal))), parts: n::<2> },
                Pair { name: concat!("Normal Vector3 of ", stringify!($T)), whole: |r| fb(&vr::<$T, 3>(r.sample(&Normal))), parts: n::<3> },
                Pair { name: concat!("Normal Vector5 of ", stringify!($T)), whole: |r| fb(&vr::<$T, 5>(r.sample(&Normal))), parts: n::<5> },
                Pair { name: concat!("Normal Matrix2x3 of ", stringify!($T)), whole: |r| fb(&mr::<$T, 2, 3>(r.sample(&Normal))), parts: n::<6> },
                Pair { name: concat!("Normal Matrix3x2 of ", stringify!($T)), whole: |r| fb(&mr::<$T, 3, 2>(r.sample(&Normal))), parts: n::<6> },
                Pair { name: concat!("Normal Matrix4x4 of ", stringify!($T)), whole: |r| fb(&mr::<$T, 4, 4>(r.sample(&Normal))), parts: n::<16> },
                Pair { name: concat!("Normal Vector4 of ", stringify!($T)), whole: |r| fb(&vr::<$T, 4>(r.sample(&Normal))), parts: n::<4> },
                Pair { name: concat!("Normal Vector8 of ", stringify!($T)), whole: |r| fb(&vr::<$T, 8>(r.sample(&Normal))), parts: n::<8> },
                Pair { name: concat!("Normal Matrix3x3 of ", stringify!($T)), whole: |r| fb(&mr::<$T, 3, 3>(r.sample(&Normal))), parts: n::<9> },
                Pair { name: concat!("Normal Vector9 of ", stringify!($T)), whole: |r| fb(&vr::<$T, 9>(r.sample(&Normal))), parts: n::<9> },
                Pair { name: concat!("Normal Matrix7x5 of ", stringify!($T)), whole: |r| fb(&mr::<$T, 7, 5>(r.sample(&Normal))), parts: n::<35> },
                Pair { name: concat!("Normal Matrix0x2 of ", stringify!($T)), whole: |r| fb(&mr::<$T, 0, 2>(r.sample(&Normal))), parts: n::<0> },
                Pair { name: concat!("Normal Complex of ", stringify!($T)), whole: |r| fb(&cr::<$T>(r.sample(&Normal))), parts: n::<2> },
                Pair { name: concat!("Normal Quaternion of ", stringify!($T)), whole: |r| fb(&qr::<$T>(r.sample(&Normal))), parts: n::<4> },
                Pair { name: concat!("Normal Shift3 of ", stringify!($T)), whole: |r| fb(&vr(r.sample::<Shift<$T, 3>, _>(&Normal).into_vector())), parts: n::<3> },
                Pair { name: concat!("Normal Linear2 of ", stringify!($T)), whole: |r| fb(&mr(r.sample::<Linear<$T, 2>, _>(&Normal).into_matrix())), parts: n::<4> },
                Pair { name: concat!("Normal Linear3 of ", stringify!($T)), whole: |r| fb(&mr(r.sample::<Linear<$T, 3>, _>(&Normal).into_matrix())), parts: n::<9> },
                Pair { name: concat!("Normal Shift1 of ", stringify!($T)), whole: |r| fb(&vr(r.sample::<Shift<$T, 1>, _>(&Normal).into_vector())), parts: n::<1> },
                Pair { name: concat!("Normal Shift2 of ", stringify!($T)), whole: |r| fb(&vr(r.sample::<Shift<$T, 2>, _>(&Normal).into_vector())), parts: n::<2> },
                Pair { name: concat!("Normal Shift4 of ", stringify!($T)), whole: |r| fb(&vr(r.sample::<Shift<$T, 4>, _>(&Normal).into_vector())), parts: n::<4> },
                Pair { name: concat!("Normal Shift7 of ", stringify!($T)), whole: |r| fb(&vr(r.sample::<Shift<$T, 7>, _>(&Normal).into_vector())), parts: n::<7> },
                Pair { name: concat!("Normal Linear1 of ", stringify!($T)), whole: |r| fb(&mr(r.sample::<Linear<$T, 1>, _>(&Normal).into_matrix())), parts: n::<1> },
                Pair { name: concat!("Normal Linear4 of ", stringify!($T)), whole: |r| fb(&mr(r.sample::<Linear<$T, 4>, _>(&Normal).into_matrix())), parts: n::<16> },
                Pair { name: concat!("Normal Linear5 of ", stringify!($T)), whole: |r| fb(&mr(r.sample::<Linear<$T, 5>, _>(&Normal).into_matrix())), parts: n::<25> },
                Pair { name: concat!("Normal Affine1 of ", stringify!($T)), whole: |r| {
                    let a: Affine<$T, 1> = r.sample(&Normal);
                    fb(&[vr(a.shift().into_vector()), mr(a.linear().into_matrix())].concat())
                }, parts: n::<2> },
                Pair { name: concat!("Normal Affine4 of ", stringify!($T)), whole: |r| {
                    let a: Affine<$T, 4> = r.sample(&Normal);
                    fb(&[vr(a.shift().into_vector()), mr(a.linear().into_matrix())].concat())
                }, parts: n::<20> },
                Pair { name: concat!("Normal Affine5 of ", stringify!($T)), whole: |r| {
                    let a: Affine<$T, 5> = r.sample(&Normal);
                    fb(&[vr(a.shift().into_vector()), mr(a.linear().into_matrix())].concat())
                }, parts: n::<30> },
                Pair { name: concat!("Normal Scale of ", stringify!($T)), whole: |r| vec![r.sample::<Scale<$T>, _>(&Normal).into_mag().bits()], parts: n::<1> },
                Pair { name: concat!("Normal Affine2 of ", stringify!($T)), whole: |r| {
                    let a: Affine<$T, 2> = r.sample(&Normal);
                    fb(&[vr(a.shift().into_vector()), mr(a.linear().into_matrix())].concat())
                }, parts: n::<6> },
                Pair { name: concat!("Normal Affine3 of ", stringify!($T)), whole: |r| {
                    let a: Affine<$T, 3> = r.sample(&Normal);
                    fb(&[vr(a.shift().into_vector()), mr(a.linear().into_matrix())].concat())
                }, parts: n::<12> },
                Pair { name: concat!("Normal Vector2 of Complex of ", stringify!($T)), whole: |r| {
                    let v: Vector<Complex<$T>, 2> = r.sample(&Normal);
                    v.as_array().iter().flat_map(|c| fb(&cr(*c))).collect()
                }, parts: n::<4> },
                Pair { name: concat!("Normal Matrix2x1 of Quaternion of ", stringify!($T)), whole: |r| {
                    let v: Matrix<Quaternion<$T>, 2, 1> = r.sample(&Normal);
                    v.as_array_of_arrays().iter().flatten().flat_map(|c| fb(&qr(*c))).collect()
                }, parts: n::<8> },
                Pair { name: concat!("Invertible Affine2 of ", stringify!($T)), whole: |r| {
                    let a: Affine<$T, 2> = r.sample(&Invertible);
                    fb(&[vr(a.shift().into_vector()), mr(a.linear().into_matrix())].concat())
                }, parts: |r| {
                    let s: Vector<$T, 2> = r.sample(&Normal);
                    let l: Matrix<$T, 2, 2> = r.sample(&Invertible);
                    fb(&[vr(s), mr(l)].concat())
                } },
                Pair { name: concat!("Invertible Affine3 of ", stringify!($T)), whole: |r| {
                    let a: Affine<$T, 3> = r.sample(&Invertible);
                    fb(&[vr(a.shift().into_vector()), mr(a.linear().into_matrix())].concat())
                }, parts: |r| {
                    let s: Shift<$T, 3> = r.sample(&Normal);
                    let l: Linear<$T, 3> = r.sample(&Invertible);
                    fb(&[vr(s.into_vector()), mr(l.into_matrix())].concat())
                } },
                Pair { name: concat!("Invertible Linear3 of ", stringify!($T)), whole: |r| fb(&mr(r.sample::<Linear<$T, 3>, _>(&Invertible).into_matrix())),
                    parts: |r| fb(&mr::<$T, 3, 3>(r.sample(&Invertible))) },
                Pair { name: concat!("Invertible Moebius of ", stringify!($T)), whole: |r| fb(&mr(r.sample::<Moebius<$T>, _>(&Invertible).into_matrix())),
                    parts: |r| fb(&mr::<$T, 2, 2>(r.sample(&Invertible))) },
                Pair { name: concat!("NonZero Complex of ", stringify!($T)), whole: |r| fb(&cr::<$T>(r.sample(&NonZero))),
                    parts: |r| fb(&vr::<$T, 2>(r.sample(&NonZero))) },
                Pair { name: concat!("Unit Complex of ", stringify!($T)), whole: |r| fb(&cr::<$T>(r.sample(&Unit))),
                    parts: |r| fb(&vr::<$T, 2>(r.sample(&Unit))) },
                Pair { name: concat!("NonZero Quaternion of ", stringify!($T)), whole: |r| fb(&qr::<$T>(r.sample(&NonZero))),
                    parts: |r| fb(&vr::<$T, 4>(r.sample(&NonZero))) },
                Pair { name: concat!("Unit Quaternion of ", stringify!($T)), whole: |r| fb(&qr::<$T>(r.sample(&Unit))),
                    parts: |r| fb(&vr::<$T, 4>(r.sample(&Unit))) },
            ]
        }
    };
}
pairs!(pairs32 f32 f32);
pairs!(pairs64 f64 f64);
pairs!(pairsfl Fl Fl);

/// Samplers without a separate definition of their parts: only determined by their words.
fn others() -> Vec<Pair> {
    macro_rules! alone {
        ($n:expr, $f:expr) => {
            Pair { name: $n, whole: $f, parts: $f }
        };
    }
    vec![
        alone!("Uniform Rotation2 of f64", |r| fb(&cr(r.sample::<Rotation2<f64>, _>(&Uniform).into_complex()))),
        alone!("Uniform Rotation3 of f64", |r| fb(&qr(r.sample::<Rotation3<f64>, _>(&Uniform).into_quaternion()))),
        alone!("Uniform Rotation2 of f32", |r| fb(&cr(r.sample::<Rotation2<f32>, _>(&Uniform).into_complex()))),
        alone!("Uniform Rotation3 of f32", |r| fb(&qr(r.sample::<Rotation3<f32>, _>(&Uniform).into_quaternion()))),
        alone!("Unit Vector3 of f64", |r| fb(&vr::<f64, 3>(r.sample(&Unit)))),
        alone!("NonZero Vector2 of f32", |r| fb(&vr::<f32, 2>(r.sample(&NonZero)))),
        alone!("Invertible Matrix3x3 of f64", |r| fb(&mr::<f64, 3, 3>(r.sample(&Invertible)))),
        alone!("Unit Vector2 of Fl", |r| fb(&vr::<Fl, 2>(r.sample(&Unit)))),
        alone!("Invertible Matrix2x2 of Fl", |r| fb(&mr::<Fl, 2, 2>(r.sample(&Invertible)))),
        alone!("Invertible Moebius of Complex of f64", |r| {
            let m: Moebius<Complex<f64>> = r.sample(&Invertible);
            [m.a(), m.b(), m.c(), m.d()].iter().flat_map(|c| fb(&cr(*c))).collect()
        }),
    ]
}
/// Per-component distributions over the caller's own.
fn scripted() -> Vec<Pair> {
    fn n<const K: usize>(r: &mut dyn RngCore) -> Vec<u64> {
        (0..K).map(|_| r.sample(&Scripted).get()).collect()
    }
    vec![
        Pair { name: "VectorDistribution0", whole: |r| tb::<0>(&r.sample(&VectorDistribution::new(Scripted))), parts: n::<0> },
        Pair { name: "VectorDistribution1", whole: |r| tb::<1>(&r.sample(&VectorDistribution::new(Scripted))), parts: n::<1> },
        Pair { name: "VectorDistribution4", whole: |r| tb::<4>(&r.sample(&VectorDistribution::new(Scripted))), parts: n::<4> },
        Pair { name: "VectorDistribution3 of a reference", whole: |r| tb::<3>(&r.sample(&VectorDistribution::new(&Scripted))), parts: n::<3> },
        Pair { name: "VectorDistribution9", whole: |r| tb::<9>(&r.sample(&VectorDistribution::new(Scripted))), parts: n::<9> },
        Pair { name: "VectorDistribution17", whole: |r| tb::<17>(&r.sample(&VectorDistribution::new(&Scripted))), parts: n::<17> },
        Pair { name: "MatrixDistribution5x7", whole: |r| {
            let m: Matrix<Tok, 5, 7> = r.sample(&MatrixDistribution::new(Scripted));
            m.as_array_of_arrays().iter().flatten().map(|t| t.get()).collect()
        }, parts: n::<35> },
        Pair { name: "MatrixDistribution9x2", whole: |r| {
            let m: Matrix<Tok, 9, 2> = r.sample(&MatrixDistribution::new(&Scripted));
            m.as_array_of_arrays().iter().flatten().map(|t| t.get()).collect()
        }, parts: n::<18> },
        Pair { name: "MatrixDistribution2x3", whole: |r| {
            let m: Matrix<Tok, 2, 3> = r.sample(&MatrixDistribution::new(Scripted));
            m.as_array_of_arrays().iter().flatten().map(|t| t.get()).collect()
        }, parts: n::<6> },
        Pair { name: "MatrixDistribution3x1", whole: |r| {
            let m: Matrix<Tok, 3, 1> = r.sample(&MatrixDistribution::new(&Scripted));
            m.as_array_of_arrays().iter().flatten().map(|t| t.get()).collect()
        }, parts: n::<3> },
        Pair { name: "MatrixDistribution2x0", whole: |r| {
            let m: Matrix<Tok, 2, 0> = r.sample(&MatrixDistribution::new(&Scripted));
            m.as_array_of_arrays().iter().flatten().map(|t| t.get()).collect()
        }, parts: n::<0> },
        Pair { name: "VectorDistribution2 of MatrixDistribution1x2", whole: |r| {
            let d = VectorDistribution::<_, Matrix<Tok, 1, 2>, 2>::new(MatrixDistribution::<_, Tok, 1, 2>::new(Scripted));
            let v = r.sample(&d);
            v.as_array().iter().flat_map(|m| m.as_array_of_arrays().iter().flatten().map(|t| t.get()).collect::<Vec<_>>()).collect()
        }, parts: n::<4> },
        Pair { name: "MatrixDistribution2x2 of VectorDistribution2", whole: |r| {
            let d = MatrixDistribution::<_, Vector<Tok, 2>, 2, 2>::new(VectorDistribution::<_, Tok, 2>::new(Scripted));
            let m = r.sample(&d);
            m.as_array_of_arrays().iter().flatten().flat_map(|v| tb(v)).collect()
        }, parts: n::<8> },
    ]
}
struct Table(std::cell::UnsafeCell<Option<Vec<Vec<Pair>>>>);
unsafe impl Sync for Table {}
static TABLE: Table = Table(std::cell::UnsafeCell::new(None));
fn table() -> &'static Vec<Vec<Pair>> {
    unsafe { (*TABLE.0.get()).get_or_insert_with(|| vec![scripted(), pairs64(), pairs32(), pairsfl(), others()]) }
}

/// What the tasks sampled, for a last comparison when all is over.
struct Done(std::cell::UnsafeCell<Vec<(usize, usize, Vec<Draw>, Vec<u64>)>>);
unsafe impl Sync for Done {}
static DONE: Done = Done(std::cell::UnsafeCell::new(vec![]));
fn done() -> &'static mut Vec<(usize, usize, Vec<Draw>, Vec<u64>)> {
    unsafe { &mut *DONE.0.get() }
}

fn replay(name: &str, what: &str, log: &[Draw], f: Sampler, want: &[u64]) {
    let mut t = Tape { log: log.to_vec(), at: 0, strayed: false };
    let r = exec(&format!("{} ({})", name, what), K, 0, || f(&mut t));
    if let Ok(v) = r {
        if v != want {
            violation(K, format!("{}:{}", what, name),
                format!("{}: {} from the same words give {:x?}, not {:x?}", name, what, v, want));
        } else if !t.spent() {
            violation(K, format!("{}-draws:{}", what, name),
                format!("{}: {} ask the generator differently: {} of {} requests{}", name, what, t.at, log.len(),
                    if t.strayed { ", of other kinds" } else { "" }));
        }
    }
}
fn sampler(mut own: Option<Words>) {
    for _ in 0..1 + pick(4) {
        let t = table();
        let i = pick(t.len());
        let j = pick(t[i].len());
        let p = &t[i][j];
        for k in 0..5 {
            let mask = if k < 3 { ALL_SEAMS } else { 0 };
            let mut log = vec![];
            *calls() = 0;
            let r = exec(p.name, K, mask, || {
                let mut probe = Probe::new(own.as_mut());
                let v = (p.whole)(&mut probe);
                log = probe.log;
                v
            });
            match r {
                Ok(v) => {
                    trace(|| format!("{} = {:x?} from {:?}", p.name, v, log));
                    if i == 0 && *calls() as usize != v.len() {
                        violation(K, format!("calls:{}", p.name),
                            format!("{}: {} components, {} calls of the inner distribution", p.name, v.len(), calls()));
                    }
                    replay(p.name, "the same sampler", &log, p.whole, &v);
                    replay(p.name, "the parts", &log, p.parts, &v);
                    done().push((i, j, log, v));
                    break;
                }
                Err(Stop::Injected) => extra(X::Retry),
                Err(_) => break,
            }
        }
        if !sim().viol.is_empty() {
            return;
        }
    }
}
pub fn conserve_machine() {
    swarm();
    table();
    done().clear();
    let n = 1 + sdraw(MAX_TASKS as u64) as usize;
    let phases = sdraw(3) as usize;
    unsafe { *SHARED.0.get() = Some(Words::drawn_phases(phases)) };
    let mut jobs: Vec<(Option<Vec<u64>>, Box<dyn FnOnce() + Send>)> = vec![];
    for _ in 0..n {
        let own = if sdraw(2) == 0 { Some(Words::drawn_phases(sdraw(2) as usize)) } else { None };
        jobs.push((None, Box::new(move || sampler(own))));
    }
    if n == 1 && sdraw(2) == 0 {
        let (_, job) = jobs.pop().unwrap();
        job();
    } else {
        run_tasks(jobs);
    }
    // once more, on one thread, in another order
    let d = std::mem::take(done());
    for (i, j, log, v) in d.iter().rev() {
        if !sim().viol.is_empty() {
            return;
        }
        let p = &table()[*i][*j];
        replay(p.name, "the same sampler", log, p.whole, v);
    }
    if live() != 0 {
        violation(C01, "leak:sampling", format!("{} elements are still alive after sampling", live()));
    }
}

/// A nested sample and its parts, from equal streams (see `reenter`).
pub fn nested(a: u64) -> bool {
    let (mut w, mut x) = (Words::healthy(a), Words::healthy(a));
    struct Plain<'a>(&'a mut Words);
    impl RngCore for Plain<'_> {
        fn next_u32(&mut self) -> u32 {
            (self.0.plain() >> 32) as u32
        }
        fn next_u64(&mut self) -> u64 {
            self.0.plain()
        }
        fn fill_bytes(&mut self, d: &mut [u8]) {
            for b in d {
                *b = self.0.plain() as u8;
            }
        }
        fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_::Error> {
            self.fill_bytes(d);
            Ok(())
        }
    }
    let m: Affine<f64, 2> = Plain(&mut w).sample(&Normal);
    let mut p = Plain(&mut x);
    let (s, l): (Vector<f64, 2>, Matrix<f64, 2, 2>) = (p.sample(&Normal), p.sample(&Normal));
    m.shift().into_vector() == s && m.linear().into_matrix() == l && w.drawn == x.drawn
}
