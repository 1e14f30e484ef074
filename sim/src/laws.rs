//! Laws of sampled objects over large seeded ensembles (C12). One run draws one ensemble of one kind of object
//! from a healthy generator and compares frequencies and moments with those of the law.  A deviation counts
//! beyond 7 standard errors (for frequencies: where the Chernoff bound is that of 7 standard errors), which a
//! correct sampler shows about once in 10^11 comparisons.

use crate::rng::{Real, Words};
use crate::sim::*;
use rand_::{Rng, RngCore};
use vecmat::complex::Moebius;
use vecmat::distr::{Invertible, NonZero, Normal, Uniform, Unit};
use vecmat::transform::{Affine, Linear, Rotation2, Rotation3, Scale, Shift};
use vecmat::{Complex, Matrix, Quaternion, Vector};

const S: u32 = C12;
const SIGMAS: f64 = 7.0;

/// A generator without seams: ensembles are long.
struct Fair(Words);
impl RngCore for Fair {
    fn next_u32(&mut self) -> u32 {
        (self.0.plain() >> 32) as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.0.plain()
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for b in dest {
            *b = self.0.plain() as u8;
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand_::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Law {
    /// Independent standard normal components.
    Gauss,
    /// Uniform on the unit sphere.
    Sphere,
    /// Uniform over plane rotations (cos, sin).
    Turn,
    /// Uniform over space rotations (unit quaternion up to its sign).
    Spin,
}
type Draws = fn(&mut Fair) -> Vec<f64>;
struct Kind {
    name: &'static str,
    law: Law,
    draw: Draws,
}

fn v<T: Real, const N: usize>(v: Vector<T, N>) -> Vec<f64> {
    v.as_array().iter().map(|x| x.f()).collect()
}
fn m<T: Real, const M: usize, const N: usize>(m: Matrix<T, M, N>) -> Vec<f64> {
    m.as_array_of_arrays().iter().flatten().map(|x| x.f()).collect()
}
fn c<T: Real>(c: Complex<T>) -> Vec<f64> {
    vec![c.re().f(), c.im().f()]
}
fn q<T: Real>(q: Quaternion<T>) -> Vec<f64> {
    vec![q.w().f(), q.x().f(), q.y().f(), q.z().f()]
}
macro_rules! both {
    ($f:ident $T:ident) => {
fn $f() -> Vec<Kind> {
    let g = |name, law, draw| Kind { name, law, draw };
    let mut r = vec![
        g("Normal scalar", Law::Gauss, (|r| vec![r.sample::<$T, _>(&Normal).f()]) as Draws),
        g("Normal Vector3", Law::Gauss, |r| v::<$T, 3>(r.sample(&Normal))),
        g("Normal Vector8", Law::Gauss, |r| v::<$T, 8>(r.sample(&Normal))),
        g("Normal Matrix2x2", Law::Gauss, |r| m::<$T, 2, 2>(r.sample(&Normal))),
        g("Normal Matrix2x3", Law::Gauss, |r| m::<$T, 2, 3>(r.sample(&Normal))),
        g("Normal Complex", Law::Gauss, |r| c::<$T>(r.sample(&Normal))),
        g("Normal Quaternion", Law::Gauss, |r| q::<$T>(r.sample(&Normal))),
        g("Normal Shift3", Law::Gauss, |r| v(r.sample::<Shift<$T, 3>, _>(&Normal).into_vector())),
        g("Normal Linear2", Law::Gauss, |r| m(r.sample::<Linear<$T, 2>, _>(&Normal).into_matrix())),
        g("Normal Scale", Law::Gauss, |r| vec![r.sample::<Scale<$T>, _>(&Normal).into_mag().f()]),
        g("Normal Affine2", Law::Gauss, |r| {
            let a: Affine<$T, 2> = r.sample(&Normal);
            [v(a.shift().into_vector()), m(a.linear().into_matrix())].concat()
        }),
        g("NonZero Vector1", Law::Gauss, |r| v::<$T, 1>(r.sample(&NonZero))),
        g("NonZero Vector3", Law::Gauss, |r| v::<$T, 3>(r.sample(&NonZero))),
        g("NonZero Vector6", Law::Gauss, |r| v::<$T, 6>(r.sample(&NonZero))),
        g("NonZero Complex", Law::Gauss, |r| c::<$T>(r.sample(&NonZero))),
        g("NonZero Quaternion", Law::Gauss, |r| q::<$T>(r.sample(&NonZero))),
        g("Invertible Matrix1x1", Law::Gauss, |r| m::<$T, 1, 1>(r.sample(&Invertible))),
        g("Invertible Matrix2x2", Law::Gauss, |r| m::<$T, 2, 2>(r.sample(&Invertible))),
        g("Invertible Matrix3x3", Law::Gauss, |r| m::<$T, 3, 3>(r.sample(&Invertible))),
        g("Invertible Matrix4x4", Law::Gauss, |r| m::<$T, 4, 4>(r.sample(&Invertible))),
        g("Invertible Linear3", Law::Gauss, |r| m(r.sample::<Linear<$T, 3>, _>(&Invertible).into_matrix())),
        g("Invertible Linear2", Law::Gauss, |r| m(r.sample::<Linear<$T, 2>, _>(&Invertible).into_matrix())),
        g("Invertible Affine2", Law::Gauss, |r| {
            let a: Affine<$T, 2> = r.sample(&Invertible);
            [v(a.shift().into_vector()), m(a.linear().into_matrix())].concat()
        }),
        g("Invertible Moebius", Law::Gauss, |r| m(r.sample::<Moebius<$T>, _>(&Invertible).into_matrix())),
        g("Unit Vector1", Law::Sphere, |r| v::<$T, 1>(r.sample(&Unit))),
        g("Unit Vector2", Law::Sphere, |r| v::<$T, 2>(r.sample(&Unit))),
        g("Unit Vector3", Law::Sphere, |r| v::<$T, 3>(r.sample(&Unit))),
        g("Unit Vector4", Law::Sphere, |r| v::<$T, 4>(r.sample(&Unit))),
        g("Unit Vector7", Law::Sphere, |r| v::<$T, 7>(r.sample(&Unit))),
        g("Unit Vector5", Law::Sphere, |r| v::<$T, 5>(r.sample(&Unit))),
        g("Unit Complex", Law::Sphere, |r| c::<$T>(r.sample(&Unit))),
        g("Unit Quaternion", Law::Sphere, |r| q::<$T>(r.sample(&Unit))),
    ];
    for k in r.iter_mut() {
        k.name = Box::leak(format!("{} of {}", k.name, stringify!($T)).into_boxed_str());
    }
    r
}
    };
}
both!(kinds64 f64);
both!(kinds32 f32);
fn kinds() -> Vec<Kind> {
    let mut r = kinds64();
    r.extend(kinds32());
    r.push(Kind { name: "Uniform Rotation2 of f64", law: Law::Turn, draw: |r| c(r.sample::<Rotation2<f64>, _>(&Uniform).into_complex()) });
    r.push(Kind { name: "Uniform Rotation2 of f32", law: Law::Turn, draw: |r| c(r.sample::<Rotation2<f32>, _>(&Uniform).into_complex()) });
    r.push(Kind { name: "Uniform Rotation3 of f64", law: Law::Spin, draw: |r| q(r.sample::<Rotation3<f64>, _>(&Uniform).into_quaternion()) });
    r.push(Kind { name: "Uniform Rotation3 of f32", law: Law::Spin, draw: |r| q(r.sample::<Rotation3<f32>, _>(&Uniform).into_quaternion()) });
    r.push(Kind { name: "Invertible Moebius of Complex", law: Law::Gauss, draw: |r| {
        let m: Moebius<Complex<f64>> = r.sample(&Invertible);
        [m.a(), m.b(), m.c(), m.d()].iter().flat_map(|z| c(*z)).collect()
    } });
    r.push(Kind { name: "Normal Vector2 of Complex", law: Law::Gauss, draw: |r| {
        let x: Vector<Complex<f64>, 2> = r.sample(&Normal);
        x.as_array().iter().flat_map(|z| c(*z)).collect()
    } });
    r
}

/// A statistic: sample mean of a function of the object against its expectation and standard deviation.
struct Stat {
    what: String,
    n: f64,
    sum: f64,
    mean: f64,
    sd: f64,
    event: bool,
}
/// How many standard errors a count is worth: the Chernoff bound holds for any number of objects.
fn event_z(count: f64, n: f64, p: f64) -> f64 {
    let q = count / n;
    let part = |a: f64, b: f64| if a > 0.0 { a * (a / b).ln() } else { 0.0 };
    (2.0 * n * (part(q, p) + part(1.0 - q, 1.0 - p))).max(0.0).sqrt()
}
/// Equally likely cells.
struct Cells {
    what: String,
    count: Vec<u32>,
}
impl Cells {
    fn new(what: String, n: usize) -> Cells {
        Cells { what, count: vec![0; n] }
    }
    /// `x` is uniform on [0, 1).
    fn put(&mut self, x: f64) {
        let n = self.count.len();
        self.count[((x * n as f64).max(0.0) as usize).min(n - 1)] += 1;
    }
    fn worst(&self) -> (f64, String) {
        let n: f64 = self.count.iter().map(|c| *c as f64).sum();
        let mut w = (0.0, String::new());
        let mut below = 0.0;
        let k = self.count.len() as f64;
        for (i, c) in self.count.iter().enumerate() {
            let one = (event_z(*c as f64, n, 1.0 / k), *c as f64, 1.0 / k, "in");
            below += *c as f64;
            let sum = (if i as f64 + 1.0 < k { event_z(below, n, (i as f64 + 1.0) / k) } else { 0.0 }, below, (i as f64 + 1.0) / k, "up to");
            for (z, c, p, how) in [one, sum] {
                if z > w.0 {
                    w = (z, format!("{} {} part {} of {}: {} of {} objects, expected {} ({:.1} standard errors)", self.what, how, i, k, c, n, n * p, z));
                }
            }
        }
        w
    }
}
struct Book {
    stats: Vec<Stat>,
    at: usize,
}
impl Book {
    fn new() -> Book {
        Book { stats: vec![], at: 0 }
    }
    /// The same calls come in the same order for every object.
    fn put(&mut self, what: impl FnOnce() -> String, x: f64, mean: f64, sd: f64) {
        if self.at == self.stats.len() {
            self.stats.push(Stat { what: what(), n: 0.0, sum: 0.0, mean, sd, event: false });
        }
        let s = &mut self.stats[self.at];
        s.n += 1.0;
        s.sum += x;
        self.at += 1;
    }
    /// An event of known probability.
    fn event(&mut self, what: impl FnOnce() -> String, x: bool, p: f64) {
        self.put(what, x as u64 as f64, p, (p * (1.0 - p)).sqrt());
        self.stats[self.at - 1].event = true;
    }
    fn worst(&self) -> (f64, String) {
        let mut w = (0.0, String::new());
        for s in &self.stats {
            let z = (s.sum / s.n - s.mean) / s.sd * s.n.sqrt();
            let z = if z.is_nan() { f64::INFINITY } else if s.event { event_z(s.sum, s.n, s.mean) } else { z.abs() };
            if z > w.0 {
                w = (z, format!("{}: {} over {} objects, expected {} ({:.1} standard errors)", s.what, s.sum / s.n, s.n, s.mean, z));
            }
        }
        w
    }
}
/// Quantiles of the standard normal law.
const CUTS: &[(f64, f64)] = &[
    // (x, P(X < x))
    (-2.326347874, 0.01),
    (-1.644853627, 0.05),
    (-1.281551566, 0.10),
    (-0.841621234, 0.20),
    (-0.524400513, 0.30),
    (-0.253347103, 0.40),
    (0.0, 0.50),
    (0.253347103, 0.60),
    (0.524400513, 0.70),
    (0.841621234, 0.80),
    (1.281551566, 0.90),
    (1.644853627, 0.95),
    (2.326347874, 0.99),
];
fn gauss(b: &mut Book, x: &[f64]) {
    for (i, a) in x.iter().enumerate() {
        b.put(|| format!("mean of component {}", i), *a, 0.0, 1.0);
        b.put(|| format!("square of component {}", i), a * a, 1.0, 2f64.sqrt());
        for (c, p) in CUTS {
            b.event(|| format!("component {} below {}", i, c), a < c, *p);
        }
        b.event(|| format!("component {} within 0.6745", i), a.abs() < 0.67448975, 0.5);
    }
    for i in 0..x.len() {
        for j in 0..i {
            b.put(|| format!("product of components {} and {}", j, i), x[i] * x[j], 0.0, 1.0);
            b.put(|| format!("sizes of components {} and {}", j, i), near(x[i]) * near(x[j]), 0.0, 1.0);
            b.put(|| format!("signs of components {} and {}", j, i), x[i].signum() * x[j].signum(), 0.0, 1.0);
        }
    }
}
fn near(x: f64) -> f64 {
    if x.abs() < 0.67448975 {
        1.0
    } else {
        -1.0
    }
}
fn sphere(b: &mut Book, x: &[f64], sign: bool) {
    let n = x.len() as f64;
    let m2 = 1.0 / n;
    let m4 = 3.0 / (n * (n + 2.0));
    let m8 = 105.0 / (n * (n + 2.0) * (n + 4.0) * (n + 6.0));
    let m22 = 1.0 / (n * (n + 2.0));
    let m44 = 9.0 / (n * (n + 2.0) * (n + 4.0) * (n + 6.0));
    for (i, a) in x.iter().enumerate() {
        if sign {
            b.put(|| format!("mean of component {}", i), *a, 0.0, m2.sqrt());
            b.event(|| format!("component {} positive", i), *a > 0.0, 0.5);
        }
        if x.len() > 1 {
            b.put(|| format!("square of component {}", i), a * a, m2, (m4 - m2 * m2).sqrt());
            b.put(|| format!("fourth power of component {}", i), a.powi(4), m4, (m8 - m4 * m4).sqrt());
        }
        for j in 0..i {
            b.put(|| format!("product of components {} and {}", j, i), a * x[j], 0.0, m22.sqrt());
            b.put(|| format!("squares of components {} and {}", j, i), a * a * x[j] * x[j], m22, (m44 - m22 * m22).sqrt());
            b.put(|| format!("signs of components {} and {}", j, i), a.signum() * x[j].signum(), 0.0, 1.0);
        }
    }
    if x.len() == 2 {
        turn(b, x);
    }
}
fn turn(b: &mut Book, x: &[f64]) {
    let t = x[1].atan2(x[0]);
    for k in 1..=6 {
        b.put(|| format!("cosine of {} angles", k), (k as f64 * t).cos(), 0.0, 0.5f64.sqrt());
        b.put(|| format!("sine of {} angles", k), (k as f64 * t).sin(), 0.0, 0.5f64.sqrt());
    }
    for k in 0..12 {
        let lo = (k as f64 / 12.0 * 2.0 - 1.0) * std::f64::consts::PI;
        b.event(|| format!("angle in sector {}", k), t >= lo && t < lo + std::f64::consts::PI / 6.0, 1.0 / 12.0);
    }
}
fn spin(b: &mut Book, q: &[f64]) {
    sphere(b, q, false);
    let (w, x, y, z) = (q[0], q[1], q[2], q[3]);
    let r = [
        1.0 - 2.0 * (y * y + z * z), 2.0 * (x * y - z * w), 2.0 * (x * z + y * w),
        2.0 * (x * y + z * w), 1.0 - 2.0 * (x * x + z * z), 2.0 * (y * z - x * w),
        2.0 * (x * z - y * w), 2.0 * (y * z + x * w), 1.0 - 2.0 * (x * x + y * y),
    ];
    for (k, a) in r.iter().enumerate() {
        // each entry is uniform on [-1, 1]
        b.put(|| format!("mean of entry {}", k), *a, 0.0, (1.0f64 / 3.0).sqrt());
        b.put(|| format!("square of entry {}", k), a * a, 1.0 / 3.0, (1.0f64 / 5.0 - 1.0 / 9.0).sqrt());
        for c in 1..4 {
            b.event(|| format!("entry {} below quarter {}", k, c), *a < c as f64 / 2.0 - 1.0, c as f64 / 4.0);
        }
    }
    b.put(|| "trace".into(), r[0] + r[4] + r[8], 0.0, 1.0);
}
fn lagged(b: &mut Book, law: Law, x: &[f64], old: &[f64], lag: usize) {
    if law == Law::Spin {
        let d: f64 = x.iter().zip(old).map(|(a, b)| a * b).sum();
        b.put(|| format!("squared cosine between samples {} apart", lag), d * d, 0.25, (0.125f64 - 0.0625).sqrt());
        return;
    }
    let sd = if law == Law::Gauss { 1.0 } else { 1.0 / x.len() as f64 };
    for i in 0..x.len() {
        b.put(|| format!("component {} of samples {} apart", i, lag), x[i] * old[i], 0.0, sd);
        let j = (i + 1) % x.len();
        if j != i {
            b.put(|| format!("components {} and {} of samples {} apart", i, j, lag), x[i] * old[j], 0.0, sd);
        }
        b.put(|| format!("signs of component {} of samples {} apart", i, lag), x[i].signum() * old[i].signum(), 0.0, 1.0);
    }
}

/// Standard normal distribution function (to about 1e-12).
fn phi(x: f64) -> f64 {
    // complementary error function by its continued fraction or series
    let z = x.abs() / 2f64.sqrt();
    let erf = if z < 2.0 {
        let (mut t, mut s) = (z, z);
        for k in 1..60 {
            t *= -z * z / k as f64;
            s += t / (2 * k + 1) as f64;
        }
        s * 2.0 / std::f64::consts::PI.sqrt()
    } else {
        let mut f = 0.0;
        for k in (1..60).rev() {
            f = k as f64 / 2.0 / (z + f);
        }
        1.0 - (-z * z).exp() / (z + f) / std::f64::consts::PI.sqrt()
    };
    if x < 0.0 { 0.5 - erf / 2.0 } else { 0.5 + erf / 2.0 }
}
/// `phi` by interpolation.
struct Table(Vec<f64>);
impl Table {
    fn new() -> Table {
        Table((0..=2000).map(|i| phi(i as f64 / 200.0 - 5.0)).collect())
    }
    fn at(&self, x: f64) -> f64 {
        let t = (x + 5.0) * 200.0;
        if !(t >= 0.0) || t >= 2000.0 {
            return phi(x);
        }
        let i = t as usize;
        self.0[i] + (self.0[i + 1] - self.0[i]) * (t - i as f64)
    }
}
/// Few statistics over a long ensemble: one component, one pair of components and one lag.
fn deep(k: &Kind, g: &mut Fair) -> (usize, f64, String) {
    let d = (k.draw)(g).len();
    let n = 1_200_000 / (d + 1);
    let i = pick(d);
    let j = if d > 1 { (i + 1 + pick(d - 1)) % d } else { i };
    let lag = [1, 2, 3, 4, 5, 7, 8, 16, 64][pick(9)];
    let every = [1, 2, 3, 4, 8, 16, 64, 256][pick(8)];
    let cells = [16, 64, 256][pick(3)];
    trace(|| format!("ensemble of {} x {}: components {} and {}, lag {}, every {}", n, k.name, i, j, lag, every));
    let table = Table::new();
    let tau = std::f64::consts::TAU;
    let turn = |y: f64, x: f64| (y.atan2(x) / tau + 1.0) % 1.0;
    let gauss = k.law == Law::Gauss;
    let mut hist = Cells::new(format!("component {}", i), cells);
    let mut angles = Cells::new(format!("angle of components {} and {}", i, j), cells);
    let mut apart = Cells::new(format!("angle of component {} and that {} samples before", i, lag), 32);
    let mut cross = Cells::new(format!("angle of component {} and component {} {} samples before", i, j, lag), 32);
    let mut some = Cells::new(format!("component {} of every {}th sample", i, every), 16);
    let mut b = Book::new();
    let sd1 = if gauss { 1.0 } else { (1.0 / d as f64).sqrt() };
    let mut old: Vec<Vec<f64>> = vec![];
    let mut again = 0u64;
    let mut seen = vec![(0u64, 0usize); 4096];
    let freedom = if gauss { d } else if k.law == Law::Turn { 1 } else { d - 1 };
    let entropy = freedom * if k.name.ends_with("f32") { 21 } else { 50 };
    for t in 0..n {
        let x = (k.draw)(g);
        b.at = 0;
        if gauss {
            let u = table.at(x[i]);
            hist.put(u);
            if t % every == 0 {
                some.put(u);
            }
            b.put(|| format!("square of component {}", i), x[i] * x[i], 1.0, 2f64.sqrt());
            b.event(|| format!("component {} beyond 3", i), x[i].abs() > 3.0, 0.002699796063);
            b.event(|| format!("component {} beyond 4", i), x[i].abs() > 4.0, 0.00006334248367);
            b.put(|| "mean of all components".to_string(), x.iter().sum::<f64>(), 0.0, (d as f64).sqrt());
        } else if k.law == Law::Sphere && d > 1 {
            b.put(|| format!("square of component {}", i), x[i] * x[i], 1.0 / d as f64,
                (3.0 / (d as f64 * (d as f64 + 2.0)) - 1.0 / (d * d) as f64).sqrt());
            if d == 3 {
                // every coordinate of the sphere in space is uniform
                hist.put((x[i] + 1.0) / 2.0);
            }
        }
        if k.law != Law::Spin {
            b.put(|| format!("mean of component {}", i), x[i], 0.0, sd1);
            b.event(|| format!("component {} positive", i), x[i] > 0.0, 0.5);
            if d > 1 {
                angles.put(turn(x[i], x[j]));
            }
        } else {
            // up to its sign
            angles.put(turn(x[i], x[j]) * 2.0 % 1.0);
        }
        if old.len() >= lag {
            let o = &old[(t - lag) % 256];
            if k.law == Law::Sphere && d == 1 {
                b.put(|| format!("signs {} samples apart", lag), x[i] * o[i], 0.0, 1.0);
            } else if gauss || d == 2 {
                if gauss {
                    apart.put(turn(x[i], o[i]));
                    cross.put(turn(x[i], o[j]));
                } else {
                    apart.put((turn(x[1], x[0]) - turn(o[1], o[0]) + 1.0) % 1.0);
                }
            } else {
                // the plane rotation that leads from one to the next has a uniform angle
                let a = turn(x[i], x[j]);
                let c = turn(o[i], o[j]);
                apart.put(if k.law == Law::Spin { ((a - c + 1.0) * 2.0) % 1.0 } else { (a - c + 1.0) % 1.0 });
            }
        }
        // a repetition (up to signs) is next to impossible
        if entropy > 40 {
            let h = x.iter().fold(1u64, |h, a| mix64(h ^ a.abs().to_bits()));
            let slot = &mut seen[(h % 4096) as usize];
            again += (slot.0 == h && t - slot.1 <= 256) as u64;
            *slot = (h, t);
        }
        if old.len() < 256 {
            old.push(x);
        } else {
            old[t % 256] = x;
        }
    }
    let mut w = b.worst();
    for c in [&hist, &angles, &apart, &cross, &some] {
        let v = if c.count.iter().any(|c| *c > 0) { c.worst() } else { continue };
        if v.0 > w.0 {
            w = v;
        }
    }
    if again > 0 {
        w = (1e9, format!("{} of {} samples repeat one of the 256 samples before", again, n));
    }
    (n, w.0, w.1)
}

pub fn machine() {
    let kinds = kinds();
    let k = &kinds[pick(kinds.len())];
    let seed = draw(0);
    // other samples drawn in between must not matter
    let mixed = pick(3);
    let mut g = Fair(Words::healthy(seed));
    if mixed == 2 {
        let (n, z, what) = deep(k, &mut g);
        sim().ensemble = n as u32;
        sim().steps += g.0.drawn;
        verdict(k, z, what);
        return;
    }
    let mixed = [0, 1, 2, 0][pick(4)];
    let d = (k.draw)(&mut g).len();
    let n = (240_000 / (d * (d + 1)).max(8)).clamp(8_000, 30_000);
    trace(|| format!("ensemble of {} x {}", n, k.name));
    let mut b = Book::new();
    let mut lag: [Option<Vec<f64>>; 2] = [None, None];
    for _ in 0..n {
        let x = (k.draw)(&mut g);
        let other: f64 = match mixed {
            0 => 0.0,
            1 => g.sample(&Normal),
            _ => {
                let f: f32 = g.sample(&Normal);
                g.next_u64();
                f as f64
            }
        };
        b.at = 0;
        match k.law {
            Law::Gauss => gauss(&mut b, &x),
            Law::Sphere => sphere(&mut b, &x, true),
            Law::Turn => {
                sphere(&mut b, &x, true);
            }
            Law::Spin => spin(&mut b, &x),
        }
        if mixed > 0 {
            gauss(&mut b, &[other]);
            for (i, a) in x.iter().enumerate() {
                if k.law != Law::Spin {
                    b.put(|| format!("component {} and another sampler's", i), a.signum() * other.signum(), 0.0, 1.0);
                }
            }
        }
        // the lagged statistics start later, so they have to stay behind the others
        for l in 0..2 {
            if let Some(old) = &lag[l] {
                lagged(&mut b, k.law, &x, old, l + 1);
            }
        }
        lag[1] = lag[0].take();
        lag[0] = Some(x);
    }
    sim().ensemble = n as u32;
    sim().steps += g.0.drawn;
    let (z, what) = b.worst();
    verdict(k, z, what);
}
fn verdict(k: &Kind, z: f64, what: String) {
    note(z.to_bits());
    trace(|| format!("largest deviation: {}", what));
    if z > SIGMAS {
        violation(S, format!("law:{}", k.name), format!("{}: {}", k.name, what));
    }
}
