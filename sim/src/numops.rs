//! Complex, quaternion and Moebius computations and their definitions (C07).

use crate::conc::*;
use crate::elems::*;
use crate::sim::*;
use crate::util::*;
use num_complex::Complex as Nc;
use num_traits::{Inv, Num, One, Zero};
use vecmat::complex::Moebius;
use vecmat::traits::{Conj, Dot, NormL1, NormL2, Normalize};
use vecmat::{Complex, Quaternion};

const S: u32 = C07;
const TOL: f64 = 1e-10;

pub fn program() {
    for _ in 0..1 + pick(4) {
        op();
        if !sim().viol.is_empty() {
            return;
        }
    }
}
pub fn op() {
    match pick(33) {
        0..=7 => quaternion(),
        8..=12 => complex(),
        13..=16 => mixed(),
        17..=22 => moebius(),
        23..=25 => complex_float(),
        26..=27 => quaternion_float(),
        28..=29 => reverse(),
        30 => totals(),
        _ => complex_power(),
    }
}

// ---------------------------------------------------------------- operands

pub type C2 = [u64; 2];
pub type Q4 = [u64; 4];
pub fn c(a: C2) -> Complex<Fp> {
    Complex::new(Fp(a[0]), Fp(a[1]))
}
pub fn q(a: Q4) -> Quaternion<Fp> {
    Quaternion::new(Fp(a[0]), Fp(a[1]), Fp(a[2]), Fp(a[3]))
}
pub fn co(a: Complex<Fp>) -> Vec<u64> {
    vec![a.re().0, a.im().0]
}
pub fn qo(a: Quaternion<Fp>) -> Vec<u64> {
    vec![a.w().0, a.x().0, a.y().0, a.z().0]
}
pub fn c2() -> C2 {
    let a = ints(2);
    let a = [a[0], a[1]];
    let r = match draw(12) {
        // of norm one
        11 => invm(sq(&a)).map(|i| cmul(cmul(a, a), [i, 0])),
        10 => cinv(a),
        9 => Some([a[0], negm(a[1])]),
        8 => Some([a[1], a[0]]),
        _ => return a,
    };
    kept(r.unwrap_or(a))
}
pub fn q4() -> Q4 {
    let a = ints(4);
    let a = [a[0], a[1], a[2], a[3]];
    let r = match draw(16) {
        15 | 14 => invm(sq(&a)).map(|i| qmul(qmul(a, a), [i, 0, 0, 0])),
        13 => qinv(a),
        12 => Some([a[0], negm(a[1]), negm(a[2]), negm(a[3])]),
        11 => Some([0, a[1], a[2], a[3]]),
        10 => Some([a[0], a[1], 0, 0]),
        9 => Some([a[2], a[3], a[0], a[1]]),
        _ => return a,
    };
    kept(r.unwrap_or(a))
}
fn kept<const N: usize>(r: [u64; N]) -> [u64; N] {
    trace(|| format!("data {:?}", r));
    remember_ints(&r);
    r
}
fn add<const N: usize>(a: [u64; N], b: [u64; N]) -> [u64; N] {
    core::array::from_fn(|i| addm(a[i], b[i]))
}
fn sub<const N: usize>(a: [u64; N], b: [u64; N]) -> [u64; N] {
    core::array::from_fn(|i| subm(a[i], b[i]))
}
fn sq(a: &[u64]) -> u64 {
    a.iter().fold(0, |s, x| addm(s, mulm(*x, *x)))
}
pub fn c2q(a: C2) -> Q4 {
    [a[0], a[1], 0, 0]
}
fn l1(a: &[u64]) -> u64 {
    a.iter().fold(0, |s, x| addm(s, l1m(*x)))
}

// ---------------------------------------------------------------- exact operations

fn complex() {
    let (a, b) = (c2(), c2());
    let (x, y) = (c(a), c(b));
    let s = [b[0], 0];
    let t = Fp(b[0]);
    let some = |v: C2| Some(v.to_vec());
    match pick(20) {
        0 => run("Complex + Complex", S, some(add(a, b)), || co(x + y)),
        1 => run("Complex - Complex", S, some(sub(a, b)), || co(x - y)),
        2 => run("Complex * Complex", S, some(cmul(a, b)), || co(x * y)),
        3 => run("Complex / Complex", S, cinv(b).map(|i| cmul(a, i).to_vec()), || co(x / y)),
        4 => run("Complex + scalar", S, some(add(a, s)), || co(x + t)),
        5 => run("Complex - scalar", S, some(sub(a, s)), || co(x - t)),
        6 => run("Complex * scalar", S, some(cmul(a, s)), || co(x * t)),
        7 => run("Complex / scalar", S, cinv(s).map(|i| cmul(a, i).to_vec()), || co(x / t)),
        8 => run("Complex neg", S, some(sub([0, 0], a)), || co(-x)),
        9 => run("Complex conj", S, some([a[0], negm(a[1])]), || if a[0] % 2 == 0 { co(x.conj()) } else { co(Conj::conj(x)) }),
        10 => run("Complex norm_sqr", S, Some(vec![sq(&a)]), || vec![x.norm_sqr().0]),
        11 => run("Complex inv", S, cinv(a).map(|i| i.to_vec()), || co(x.inv())),
        12 => run("Complex into_matrix", S, Some(vec![a[0], negm(a[1]), a[1], a[0]]), || mo(x.into_matrix())),
        13 => run("Complex dot", S, Some(vec![addm(mulm(a[0], b[0]), mulm(a[1], b[1]))]), || vec![x.dot(y).0]),
        14 => run("Complex units", S, Some(vec![1, 0, 0, 1, 0, 0]), || {
            let mut r = co(Complex::one());
            r.extend(co(Complex::i()));
            r.extend(co(Complex::zero()));
            r
        }),
        15 => {
            let a = match pick(4) {
                0 => [0, 0],
                1 => [a[0], 0],
                2 => [0, a[1]],
                _ => a,
            };
            let x = c(a);
            run("Complex is_zero", S, Some(vec![b2u(a == [0, 0])]), || vec![b2u(x.is_zero())])
        }
        16 => run("Complex norm_l1", S, Some(vec![l1(&a)]), || vec![x.norm_l1().0]),
        17 => run("Complex %", S, cinv(b).map(|_| vec![0, 0]), || co(x % y)),
        18 => {
            let b = if chance(1, 2) { a } else { b };
            let y = c(b);
            run("Complex ==", S, Some(vec![b2u(a == b)]), || vec![b2u(x == y)])
        }
        _ => {
            // a longer computation on the same operands
            let want = cinv(b).map(|i| add(cmul(cmul(a, i), b), sub(b, a)).to_vec());
            run("Complex expression", S, want, || co(x / y * y + (y - x)));
        }
    }
}
fn complex_power() {
    let a = c2();
    let x = c(a);
    let n = match draw(8) {
        7 => draw(4000) as i32 - 2000,
        6 => {
            let k = (1i64 << draw(32)) + draw(3) as i64 - 1;
            (if chance(1, 2) { k } else { -k }) as i32
        }
        5 => draw(64) as i32 - 32,
        _ => draw(12) as i32 - 4,
    };
    let unsigned = n >= 0 && chance(1, 2);
    // an exponent of unsigned type may be beyond the signed range
    let m = if unsigned && chance(1, 8) { draw(1 << 32) as u32 } else { n.unsigned_abs() };
    trace(|| format!("exponent {}", if unsigned { m as i64 } else { n as i64 }));
    let base = if n < 0 { cinv(a) } else { Some(a) };
    let want = base.map(|b| {
        let (mut w, mut b, mut k) = ([1, 0], b, m);
        while k > 0 {
            if k & 1 == 1 {
                w = cmul(w, b)
            }
            b = cmul(b, b);
            k >>= 1;
        }
        w
    });
    if unsigned {
        run("Complex powu", S, want.map(|w| w.to_vec()), || co(x.powu(m)));
    } else {
        run("Complex powi", S, want.map(|w| w.to_vec()), || co(x.powi(n)));
    }
}
/// Sums and products of sequences, in their order.
fn totals() {
    let n = match draw(8) {
        7 => 200 + pick(400),
        6 => 10 + pick(60),
        _ => pick(10),
    };
    let one = |k: usize| -> Q4 { core::array::from_fn(|i| b2u(i == k)) };
    // a long sequence repeats what was drawn
    let a: Vec<Q4> = (0..n.min(12)).map(|_| q4()).collect();
    let at = |i: usize| a[(i * i + i / 5) % a.len()];
    let on_c = chance(1, 2);
    let on_c_of = |x: Q4| [x[0], x[1]];
    if on_c {
        let sum = (0..n).fold([0, 0], |s, i| add(s, on_c_of(at(i))));
        let prod = (0..n).fold([1, 0], |s, i| cmul(s, on_c_of(at(i))));
        let items = || (0..n).map(|i| c(on_c_of(at(i))));
        if chance(1, 2) {
            run("sum of Complex", S, Some(sum.to_vec()), || co(items().sum()));
        } else {
            run("product of Complex", S, Some(prod.to_vec()), || co(items().product()));
        }
    } else {
        let sum = (0..n).fold([0; 4], |s, i| add(s, at(i)));
        let prod = (0..n).fold(one(0), |s, i| qmul(s, at(i)));
        let items = || (0..n).map(|i| q(at(i)));
        if chance(1, 2) {
            run("sum of Quaternion", S, Some(sum.to_vec()), || qo(items().sum()));
        } else {
            run("product of Quaternion", S, Some(prod.to_vec()), || qo(items().product()));
        }
    }
}
fn quaternion() {
    let (a, b) = (q4(), q4());
    let (x, y) = (q(a), q(b));
    let s = [b[0], 0, 0, 0];
    let t = Fp(b[0]);
    let some = |v: Q4| Some(v.to_vec());
    match pick(20) {
        0 => run("Quaternion + Quaternion", S, some(add(a, b)), || qo(x + y)),
        1 => run("Quaternion - Quaternion", S, some(sub(a, b)), || qo(x - y)),
        2 | 19 => run("Quaternion * Quaternion", S, some(qmul(a, b)), || qo(x * y)),
        3 => run("Quaternion / Quaternion", S, qinv(b).map(|i| qmul(a, i).to_vec()), || qo(x / y)),
        4 => run("Quaternion + scalar", S, some(add(a, s)), || qo(x + t)),
        5 => run("Quaternion - scalar", S, some(sub(a, s)), || qo(x - t)),
        6 => run("Quaternion * scalar", S, some(qmul(a, s)), || qo(x * t)),
        7 => run("Quaternion / scalar", S, qinv(s).map(|i| qmul(a, i).to_vec()), || qo(x / t)),
        8 => run("Quaternion neg", S, some(sub([0; 4], a)), || qo(-x)),
        9 => run("Quaternion conj", S, some([a[0], negm(a[1]), negm(a[2]), negm(a[3])]),
            || if a[0] % 2 == 0 { qo(x.conj()) } else { qo(Conj::conj(x)) }),
        10 => run("Quaternion norm_sqr", S, Some(vec![sq(&a)]), || vec![x.norm_sqr().0]),
        11 => run("Quaternion inv", S, qinv(a).map(|i| i.to_vec()), || qo(x.inv())),
        12 => {
            // column k of the matrix is the product with the k-th unit
            let cols: Vec<Q4> = (0..4).map(|k| qmul(a, core::array::from_fn(|i| b2u(i == k)))).collect();
            run("Quaternion into_matrix", S, Some((0..16).map(|k| cols[k % 4][k / 4]).collect()), || mo(x.into_matrix()))
        }
        13 => run("Quaternion dot", S, Some(vec![(0..4).fold(0, |s, i| addm(s, mulm(a[i], b[i])))]), || vec![x.dot(y).0]),
        14 => run("Quaternion units", S,
            Some([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1], [0; 4]].concat()), || {
                [Quaternion::one(), Quaternion::i(), Quaternion::j(), Quaternion::k(), Quaternion::zero()].map(qo).concat()
            }),
        15 => {
            let k = pick(6);
            let a: Q4 = core::array::from_fn(|i| if k == i || k == 5 { a[i] } else { 0 });
            let x = q(a);
            run("Quaternion is_zero", S, Some(vec![b2u(a == [0; 4])]), || vec![b2u(x.is_zero())])
        }
        16 => run("Quaternion norm_l1", S, Some(vec![l1(&a)]), || vec![x.norm_l1().0]),
        17 => {
            let b = if chance(1, 2) { a } else { b };
            let y = q(b);
            run("Quaternion ==", S, Some(vec![b2u(a == b)]), || vec![b2u(x == y)])
        }
        _ => {
            let want = qinv(b).map(|i| add(qmul(qmul(a, i), b), sub(b, a)).to_vec());
            run("Quaternion expression", S, want, || qo(x / y * y + (y - x)));
        }
    }
}
fn mixed() {
    let (a, b) = (q4(), c2());
    let (x, z) = (q(a), c(b));
    let bq = c2q(b);
    match pick(7) {
        0 => run("Quaternion + Complex", S, Some(add(a, bq).to_vec()), || qo(x + z)),
        1 => run("Quaternion - Complex", S, Some(sub(a, bq).to_vec()), || qo(x - z)),
        2 => run("Quaternion * Complex", S, Some(qmul(a, bq).to_vec()), || qo(x * z)),
        3 => run("Complex * Quaternion", S, Some(qmul(bq, a).to_vec()), || qo(z * x)),
        4 => run("Quaternion / Complex", S, qinv(bq).map(|i| qmul(a, i).to_vec()), || qo(x / z)),
        5 => run("Complex / Quaternion", S, qinv(a).map(|i| qmul(bq, i).to_vec()), || qo(z / x)),
        _ => {
            let want = qinv(bq).map(|i| qmul(qmul(bq, a), i).to_vec());
            run("conjugation by Complex", S, want, || qo(z * x / z));
        }
    }
}

// ---------------------------------------------------------------- Moebius maps

pub type M4 = [C2; 4];
pub fn mob(a: M4) -> Moebius<Complex<Fp>> {
    Moebius::new(c(a[0]), c(a[1]), c(a[2]), c(a[3]))
}
pub fn mobo(x: Moebius<Complex<Fp>>) -> Vec<u64> {
    [x.a(), x.b(), x.c(), x.d()].map(co).concat()
}
pub fn m4() -> M4 {
    let a = ints(8);
    let mut r: M4 = core::array::from_fn(|i| [a[2 * i], a[2 * i + 1]]);
    match pick(10) {
        0 => r[2] = [0, 0],
        1 => r[1] = [0, 0],
        2 => r[3] = [0, 0],
        3 => {
            // a rotation and a shift
            r[2] = [0, 0];
            r[3] = [1, 0];
        }
        4 => {
            // real coefficients
            for x in r.iter_mut() {
                x[1] = 0
            }
        }
        5 => {
            // of determinant one where possible: d = (1 + b c) / a
            if let Some(i) = cinv(r[0]) {
                r[3] = cmul(add([1, 0], cmul(r[1], r[2])), i);
            }
        }
        _ => {}
    }
    remember_ints(&r.concat());
    trace(|| format!("map {:?}", r));
    r
}
pub fn mobmul(a: M4, b: M4) -> M4 {
    core::array::from_fn(|k| {
        let (i, j) = (k / 2, k % 2);
        add(cmul(a[2 * i], b[j]), cmul(a[2 * i + 1], b[2 + j]))
    })
}
pub fn mobdet(a: M4) -> C2 {
    sub(cmul(a[0], a[3]), cmul(a[1], a[2]))
}
pub fn mobinv(a: M4) -> Option<M4> {
    let i = cinv(mobdet(a))?;
    Some([cmul(a[3], i), cmul(sub([0, 0], a[1]), i), cmul(sub([0, 0], a[2]), i), cmul(a[0], i)])
}
pub fn mobapply_c(a: M4, p: C2) -> Option<C2> {
    let u = add(cmul(a[0], p), a[1]);
    let d = add(cmul(a[2], p), a[3]);
    Some(cmul(u, cinv(d)?))
}
pub fn mobapply_q(a: M4, p: Q4) -> Option<Q4> {
    let u = add(qmul(c2q(a[0]), p), c2q(a[1]));
    let d = add(qmul(c2q(a[2]), p), c2q(a[3]));
    Some(qmul(u, qinv(d)?))
}
pub fn mobderiv_q(a: M4, p: Q4, v: Q4) -> Option<Q4> {
    let u = add(qmul(c2q(a[0]), p), c2q(a[1]));
    let d = add(qmul(c2q(a[2]), p), c2q(a[3]));
    let i = qinv(d)?;
    // d(U D^-1) = dU D^-1 - U D^-1 dD D^-1
    Some(sub(qmul(qmul(c2q(a[0]), v), i), qmul(qmul(qmul(u, i), qmul(c2q(a[2]), v)), i)))
}
pub fn mobderiv_c(a: M4, p: C2) -> Option<C2> {
    let d = add(cmul(a[2], p), a[3]);
    Some(cmul(mobdet(a), cinv(cmul(d, d))?))
}
fn moebius() {
    let a = m4();
    let x = mob(a);
    match pick(12) {
        0 => {
            let p = c2();
            let z = c(p);
            run("Moebius apply Complex", S, mobapply_c(a, p).map(|r| r.to_vec()), || co(x.apply(z)));
        }
        1 => {
            let p = q4();
            let z = q(p);
            run("Moebius apply Quaternion", S, mobapply_q(a, p).map(|r| r.to_vec()), || qo(x.apply(z)));
        }
        2 => {
            let b = m4();
            let y = mob(b);
            run("Moebius chain", S, Some(mobmul(a, b).concat()), || mobo(x.chain(y)));
        }
        3 => run("Moebius inv", S, mobinv(a).map(|r| r.concat()), || mobo(x.inv())),
        4 => run("Moebius det", S, Some(mobdet(a).to_vec()), || co(x.det())),
        5 => {
            let p = c2();
            let z = c(p);
            run("Moebius deriv", S, mobderiv_c(a, p).map(|r| r.to_vec()), || co(x.deriv(z)));
        }
        6 | 7 => {
            let (p, v) = (q4(), q4());
            let (z, w) = (q(p), q(v));
            run("Moebius deriv_dir", S, mobderiv_q(a, p, v).map(|r| r.to_vec()), || qo(x.deriv_dir(z, w)));
        }
        8 => run("Moebius identity", S, Some(vec![1, 0, 0, 0, 0, 0, 1, 0]), || mobo(Moebius::identity())),
        9 => {
            let p = c2();
            let z = c(p);
            let want = if mobdet(a) == [0, 0] { None } else { mobapply_c(a, p).map(|r| r.to_vec()) };
            run("Moebius normalize", S, want, || co(Normalize::normalize(x).apply(z)));
        }
        10 => {
            // real coefficients on real, complex and quaternion arguments
            let k = ints(5);
            let y = Moebius::new(Fp(k[0]), Fp(k[1]), Fp(k[2]), Fp(k[3]));
            let (u, d) = (addm(mulm(k[0], k[4]), k[1]), addm(mulm(k[2], k[4]), k[3]));
            run("real Moebius apply", S, divm(u, d).map(|r| vec![r]), || vec![y.apply(Fp(k[4])).0]);
        }
        _ => {
            let b = m4();
            let y = mob(b);
            let p = q4();
            let z = q(p);
            let want = mobapply_q(b, p).and_then(|r| mobapply_q(a, r)).map(|r| r.to_vec());
            run("Moebius of Moebius", S, want, || qo(x.apply(y.apply(z))));
        }
    }
    if mobo(x) != a.concat() {
        violation(S, "operand:Moebius", "a borrowed map was changed".to_string());
    }
}

// ---------------------------------------------------------------- floats

fn cf(a: Nc<f64>) -> Complex<Fl> {
    Complex::new(Fl(a.re), Fl(a.im))
}
fn cfo(a: Complex<Fl>) -> Vec<f64> {
    vec![a.re().0, a.im().0]
}
/// A complex number away from the axes (branch cuts and special points).
fn generic() -> Nc<f64> {
    let f = |x: f64| if x >= 0.0 { x / 4.0 + 0.21 } else { x / 4.0 - 0.17 };
    let r = Nc::new(f(farg()), f(farg()));
    trace(|| format!("data {:?}", r));
    r
}
/// Where a function is continuous on the axes: (positive real < 1, > 1, negative real > -1, < -1,
/// imaginary within 1, beyond 1).
fn smooth(k: usize) -> [bool; 6] {
    match k {
        // exp sin cos sinh cosh tanh (tan has poles on the real axis, tanh on the imaginary one)
        0 | 4 | 5 | 10 | 11 => [true; 6],
        6 => [true, false, true, false, true, true],
        12 => [true, true, true, true, true, false],
        // ln sqrt cbrt
        1..=3 => [true, true, false, false, true, true],
        // asin acos atanh
        7 | 8 | 15 => [true, false, true, false, true, true],
        // atan asinh
        9 | 13 => [true, true, true, true, true, false],
        // acosh
        14 => [false, true, false, false, true, true],
        // finv
        _ => [true; 6],
    }
}
/// A point on an axis, where the function with this number is continuous.
fn on_axis(k: usize) -> Nc<f64> {
    if (1..=3).contains(&k) && chance(1, 3) {
        // the cut of the logarithm and the roots belongs to the side above it
        let r = Nc::new(-0.1 - draw(8000) as f64 / 1000.0, 0.0);
        trace(|| format!("data {:?}", r));
        return r;
    }
    let can: Vec<usize> = (0..6).filter(|i| smooth(k)[*i]).collect();
    let at = can[pick(can.len())];
    let t = 0.1 + draw(8000) as f64 / 10000.0;
    let t = if at % 2 == 1 { 1.1 + t * 6.0 } else { t };
    let zero = if chance(1, 2) { 0.0 } else { -0.0 };
    let r = match at {
        0 | 1 => Nc::new(t, zero),
        2 | 3 => Nc::new(-t, zero),
        _ => Nc::new(zero, if chance(1, 2) { t } else { -t }),
    };
    trace(|| format!("data {:?}", r));
    r
}
/// Absolute value, argument and quotients anywhere in the range of floats, and at zero.
fn complex_range() {
    let k = pick(8);
    let t = || {
        let m = 0.3 + draw(4096) as f64 / 1024.0;
        // the squares must be in range for some
        let e = [0, 0, 1, -1, 60, -60, 140, -140, 250, -250, 290, -290][pick(if k < 2 || k > 5 { 8 } else if k < 4 { 12 } else { 10 })];
        let m = m * 10f64.powi(e);
        let m = if k < 2 && chance(1, 12) { f64::INFINITY } else { m };
        match pick(5) {
            0 => 0.0,
            1 | 2 => -m,
            _ => m,
        }
    };
    let a = Nc::new(t(), t());
    let b = Nc::new(t(), t());
    trace(|| format!("data {:?} {:?}", a, b));
    let (x, y) = (cf(a), cf(b));
    let n = a.re.hypot(a.im);
    match k {
        0 => runx("Complex norm", S, vec![n, n], vec![], || vec![x.norm().0, x.norm_l2().0]),
        1 => runx("Complex to_polar", S, vec![n, a.im.atan2(a.re), a.im.atan2(a.re)], vec![], || {
            let (r, t) = x.to_polar();
            vec![r.0, t.0, x.arg().0]
        }),
        6 | 7 => {
            // here the length may be nearly one, too
            let f = if k == 6 { vec![a.re, a.im] } else { spread(2) };
            let (x, n) = (cf(Nc::new(f[0], f[1])), f[0].hypot(f[1]));
            let w = [f[0] / n, f[1] / n];
            if n > 0.0 {
                runx("Complex normalize", S, [w, w].concat(), vec![], || [cfo(x.normalize()), cfo(Normalize::normalize(x))].concat())
            }
        }
        2 => {
            let w = a.finv();
            if n > 0.0 && w.re.is_finite() && w.im.is_finite() {
                runx("Complex finv", S, vec![w.re, w.im], vec![w.norm(); 2], || cfo(x.finv()))
            }
        }
        4 => {
            let w = a.ln();
            if n > 0.0 && w.re.is_finite() {
                runx("Complex ln", S, vec![w.re, w.im], vec![w.norm().max(1.0); 2], || cfo(x.ln()))
            }
        }
        5 => {
            let w = a.sqrt();
            if n > 0.0 && w.re.is_finite() && w.im.is_finite() {
                runx("Complex sqrt", S, vec![w.re, w.im], vec![w.norm(); 2], || cfo(x.sqrt()))
            }
        }
        _ => {
            let w = a.fdiv(b);
            if b.norm() > 0.0 && w.re.is_finite() && w.im.is_finite() && w.norm() > 1e-290 {
                runx("Complex fdiv", S, vec![w.re, w.im], vec![w.norm(); 2], || cfo(x.fdiv(y)))
            }
        }
    }
}
/// On a cut of an inverse function its value is that of either side.
fn on_cut() {
    let t = 1.05 + draw(8000) as f64 / 1000.0;
    let t = if chance(1, 2) { t } else { -t };
    let u = if t < 0.0 || chance(1, 2) { t } else { 1.0 / t };
    let zero = if chance(1, 2) { 0.0 } else { -0.0 };
    let k = pick(6);
    let z = match k {
        // asin acos atanh: the real axis beyond one
        0..=2 => Nc::new(t, zero),
        // atan asinh: the imaginary axis beyond one
        3 | 4 => Nc::new(zero, t),
        // acosh: the real axis below one
        _ => Nc::new(u, zero),
    };
    trace(|| format!("data {:?}", z));
    let x = cf(z);
    macro_rules! cut {
        ($($i:literal $f:ident)*) => { match k { $( $i => {
            let h = 1e-9;
            let d = if (3..5).contains(&k) { Nc::new(h, 0.0) } else { Nc::new(0.0, h) };
            let sides = [(z + d).$f(), (z - d).$f()];
            runf(concat!("Complex ", stringify!($f), " on its cut"), S, vec![1.0], TOL, false, || {
                let y = x.$f();
                let y = Nc::new(y.re().0, y.im().0);
                vec![b2u(sides.iter().any(|s| (s - y).norm() < 1e-6)) as f64]
            })
        } )* _ => {} } };
    }
    cut!(0 asin 1 acos 2 atanh 3 atan 4 asinh 5 acosh);
}
/// Powers of bases on the axes and with special exponents.
fn special_powers() {
    let t = 0.1 + draw(4000) as f64 / 1000.0;
    let a = match pick(5) {
        0 => Nc::new(0.0, 0.0),
        1 => Nc::new(t, 0.0),
        2 => Nc::new(-t, 0.0),
        3 => Nc::new(0.0, if chance(1, 2) { t } else { -t }),
        _ => generic(),
    };
    let e = [0.0, 1.0, -1.0, 2.0, -2.0, 0.5, -0.5, 1.0 / 3.0, 1.5, 3.0, 7.0][pick(11)];
    let e = Nc::new(e, [0.0, 0.0, 0.0, 1.0, -1.0, 0.5][pick(6)]);
    trace(|| format!("data {:?} ^ {:?}", a, e));
    // exp(e ln a), with the cut of the logarithm on the side above the negative axis
    let (r, th) = (a.norm(), a.im.atan2(a.re));
    let w = if e == Nc::new(0.0, 0.0) {
        Nc::new(1.0, 0.0)
    } else if r > 0.0 {
        (e * Nc::new(r.ln(), th)).exp()
    } else if e.re > 0.0 && e.im == 0.0 {
        Nc::new(0.0, 0.0)
    } else {
        return;
    };
    let x = cf(a);
    if e.im == 0.0 && chance(1, 2) {
        runf("Complex powf of special values", S, vec![w.re, w.im], TOL, false, || cfo(x.powf(Fl(e.re))));
    } else if r > 0.0 || e.re == 0.0 {
        runf("Complex powc of special values", S, vec![w.re, w.im], TOL, false, || cfo(x.powc(cf(e))));
    }
}
fn complex_float() {
    match draw(16) {
        0 | 1 => return complex_range(),
        2 => return on_cut(),
        3 => return special_powers(),
        _ => {}
    }
    let k = pick(30);
    let (a, b) = (if k <= 16 && chance(1, 3) { on_axis(k) } else { generic() }, generic());
    let (x, y) = (cf(a), cf(b));
    macro_rules! un {
        ($k:expr; $($f:ident)*) => {{
            let mut k = $k as i32;
            $(
                if k == 0 {
                    let w = a.$f();
                    runf(concat!("Complex ", stringify!($f)), S, vec![w.re, w.im], TOL, false, || cfo(x.$f()));
                }
                k -= 1;
            )*
            let _ = k;
        }};
    }
    match k {
        k @ 0..=16 => un!(k; exp ln sqrt cbrt sin cos tan asin acos atan sinh cosh tanh asinh acosh atanh finv),
        17 => runf("Complex powf", S, { let w = a.powf(b.re); vec![w.re, w.im] }, TOL, false, || cfo(x.powf(Fl(b.re)))),
        18 => runf("Complex log", S, { let w = a.log(b.re.abs() + 1.5); vec![w.re, w.im] }, TOL, false, || cfo(x.log(Fl(b.re.abs() + 1.5)))),
        19 => runf("Complex powc", S, { let w = a.powc(b); vec![w.re, w.im] }, TOL, false, || cfo(x.powc(y))),
        20 => runf("Complex expf", S, { let w = a.expf(b.re.abs() + 0.5); vec![w.re, w.im] }, TOL, false, || cfo(x.expf(Fl(b.re.abs() + 0.5)))),
        21 => runf("Complex fdiv", S, { let w = a.fdiv(b); vec![w.re, w.im] }, TOL, false, || cfo(x.fdiv(y))),
        22 => runf("Complex norm", S, vec![a.norm(), a.norm_sqr(), a.norm(), a.norm_sqr(), a.re.abs() + a.im.abs()], TOL, false,
            || vec![x.norm().0, x.norm_sqr().0, x.norm_l2().0, x.norm_l2_sqr().0, x.norm_l1().0]),
        23 => runf("Complex arg", S, vec![a.im.atan2(a.re)], TOL, false, || vec![x.arg().0]),
        24 => runf("Complex to_polar", S, vec![a.norm(), a.im.atan2(a.re)], TOL, false, || {
            let (r, t) = x.to_polar();
            vec![r.0, t.0]
        }),
        25 => runf("Complex from_polar", S, vec![a.re * a.im.cos(), a.re * a.im.sin()], TOL, false,
            || cfo(Complex::from_polar(Fl(a.re), Fl(a.im)))),
        26 => runf("Complex normalize", S, vec![a.re / a.norm(), a.im / a.norm(), a.re / a.norm(), a.im / a.norm()], TOL, false, || {
            let mut r = cfo(x.normalize());
            r.extend(cfo(Normalize::normalize(x)));
            r
        }),
        27 => {
            // the remainder of a division by a Gaussian integer multiple, rounded towards zero
            let q = a * 8.0 / b;
            let near = |v: f64| (v - v.round()).abs() < 1e-6;
            if !near(q.re) && !near(q.im) {
                let w = a * 8.0 - b * Nc::new(q.re.trunc(), q.im.trunc());
                let x = cf(a * 8.0);
                runx("Complex % of floats", S, vec![w.re, w.im], vec![a.norm() * 8.0; 2], || cfo(x % y))
            }
        }
        28 => {
            let text = format!("{}{:+}i", a.re, a.im);
            runf("Complex from_str_radix", S, vec![a.re, a.im, 1.0], TOL, false, || {
                let r = |t: &str, radix| <Complex<Fl> as Num>::from_str_radix(t, radix);
                let mut v = r(&text, 10).map(cfo).unwrap_or_default();
                v.push(r("1+xi", 10).is_err() as u32 as f64);
                v
            })
        }
        _ => {
            let w = 1.0 / a;
            runf("Complex Inv::inv", S, vec![w.re, w.im], TOL, false, || cfo(Inv::inv(x)))
        }
    }
}
fn quaternion_float() {
    let f = spread(4);
    let x = Quaternion::new(Fl(f[0]), Fl(f[1]), Fl(f[2]), Fl(f[3]));
    let o = |x: Quaternion<Fl>| vec![x.w().0, x.x().0, x.y().0, x.z().0];
    let n2: f64 = f.iter().map(|x| x * x).sum();
    let n = n2.sqrt();
    match pick(4) {
        0 => runx("Quaternion norm", S, vec![n, n, n2, f.iter().map(|x| x.abs()).sum()], vec![],
            || vec![x.norm().0, x.norm_l2().0, x.norm_l2_sqr().0, x.norm_l1().0]),
        1 => runx("Quaternion normalize", S, f.iter().map(|x| x / n).collect(), vec![], || o(x.normalize())),
        2 => runx("Quaternion Normalize::normalize", S, f.iter().map(|x| x / n).collect(), vec![], || o(Normalize::normalize(x))),
        _ => runx("Quaternion Inv::inv", S, vec![f[0] / n2, -f[1] / n2, -f[2] / n2, -f[3] / n2], vec![], || o(Inv::inv(x))),
    }
}
/// Operators with the primitive scalar (or the complex number) on the left.
fn reverse() {
    macro_rules! rev {
        ($T:ident, $tol:expr) => {{
            let d = flts(5);
            let (s, f): ($T, Vec<$T>) = (d[4] as $T, d[..4].iter().map(|x| *x as $T).collect());
            let z = Complex::<$T>::new(f[0], f[1]);
            let x = Quaternion::<$T>::new(f[0], f[1], f[2], f[3]);
            let y = Complex::<$T>::new(f[2], s);
            let zo = |z: Complex<$T>| vec![z.re() as f64, z.im() as f64];
            let xo = |x: Quaternion<$T>| vec![x.w() as f64, x.x() as f64, x.y() as f64, x.z() as f64];
            let (zz, zq) = (d[0] * d[0] + d[1] * d[1], d[..4].iter().map(|x| x * x).sum::<f64>());
            let t = d[4];
            let n = stringify!($T);
            match pick(10) {
                0 => runf(&format!("{} + Complex", n), S, vec![t + d[0], d[1]], $tol, false, || zo(s + z)),
                1 => runf(&format!("{} - Complex", n), S, vec![t - d[0], -d[1]], $tol, false, || zo(s - z)),
                2 => runf(&format!("{} * Complex", n), S, vec![t * d[0], t * d[1]], $tol, false, || zo(s * z)),
                3 => runf(&format!("{} / Complex", n), S, vec![t * d[0] / zz, -t * d[1] / zz], $tol, false, || zo(s / z)),
                4 => runf(&format!("{} + Quaternion", n), S, vec![t + d[0], d[1], d[2], d[3]], $tol, false, || xo(s + x)),
                5 => runf(&format!("{} - Quaternion", n), S, vec![t - d[0], -d[1], -d[2], -d[3]], $tol, false, || xo(s - x)),
                6 => runf(&format!("{} * Quaternion", n), S, d[..4].iter().map(|x| t * x).collect(), $tol, false, || xo(s * x)),
                7 => runf(&format!("{} / Quaternion", n), S, vec![t * d[0] / zq, -t * d[1] / zq, -t * d[2] / zq, -t * d[3] / zq],
                    $tol, false, || xo(s / x)),
                8 => runf(&format!("Complex<{}> + Quaternion", n), S, vec![d[2] + d[0], t + d[1], d[2], d[3]], $tol, false, || xo(y + x)),
                _ => runf(&format!("Complex<{}> - Quaternion", n), S, vec![d[2] - d[0], t - d[1], -d[2], -d[3]], $tol, false, || xo(y - x)),
            }
        }};
    }
    if chance(1, 2) {
        rev!(f64, 1e-10)
    } else {
        rev!(f32, 1e-4)
    }
}
