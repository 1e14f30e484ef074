//! Computations as interleaved tasks (C06, C07, C08): every program is first run alone without faults, recording
//! its data, then the same data are computed again by up to four tasks whose scalar operations interleave, panic,
//! tear and re-enter the library.  Every operation is judged against its definition each time.

use crate::elems::*;
use crate::sim::*;
use vecmat::{Matrix, Vector};

// ---------------------------------------------------------------- judging one operation

const ATTEMPTS: u32 = 6;

/// Run an operation until it gets through, judging every attempt. `ok` judges a returned value.
fn attempts<R>(name: &str, props: u32, defined: bool, f: impl Fn() -> R, ok: impl Fn(&R) -> Option<String>) -> Option<R> {
    for k in 0..ATTEMPTS {
        let mask = if k + 2 < ATTEMPTS { ALL_SEAMS } else { 0 };
        match exec(name, if defined { props } else { 0 }, mask, &f) {
            Ok(v) => {
                if defined {
                    if let Some(msg) = ok(&v) {
                        violation(props, format!("value:{}", name), format!("{}: {}", name, msg));
                        return None;
                    }
                }
                return Some(v);
            }
            Err(Stop::Injected) => {
                extra(X::Retry);
            }
            Err(Stop::DivZero) => {
                if defined {
                    violation(props, format!("undefined:{}", name),
                        format!("{} divides by zero although its result is defined", name));
                }
                return None;
            }
            Err(Stop::Foreign(_)) => return None,
        }
    }
    None
}
/// An operation over the exact scalar; `want` is None where its result is not defined.
pub fn run(name: &str, props: u32, want: Option<Vec<u64>>, f: impl Fn() -> Vec<u64>) {
    trace(|| format!("expect {} = {:?}", name, want));
    attempts(name, props, want.is_some(), f, |v| {
        let w = want.as_ref().unwrap();
        if v == w {
            None
        } else {
            Some(format!("got {:?}, expected {:?}", v, w))
        }
    });
}
/// As `run`, also handing out the value.
pub fn run_get<R: Clone>(name: &str, props: u32, want: Option<Vec<u64>>, f: impl Fn() -> R, read: impl Fn(&R) -> Vec<u64>) -> Option<R> {
    trace(|| format!("expect {} = {:?}", name, want));
    attempts(name, props, want.is_some(), f, |r| {
        let w = want.as_ref().unwrap();
        let v = read(r);
        if v == *w {
            None
        } else {
            Some(format!("got {:?}, expected {:?}", v, w))
        }
    })
}
pub fn close(a: f64, b: f64, scale: f64, tol: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan()) || b.is_finite() && (a - b).abs() <= tol * scale.max(b.abs()).max(1e-3)
}
/// An operation over floats: equal up to rounding; a NaN in `want` must be a NaN if `nan`, else means undefined.
pub fn runf(name: &str, props: u32, want: Vec<f64>, tol: f64, nan: bool, f: impl Fn() -> Vec<f64>) {
    trace(|| format!("expect {} = {:?}", name, want));
    let scale = want.iter().filter(|x| x.is_finite()).fold(1.0, |s: f64, x| s.max(x.abs()));
    let defined = nan || want.iter().all(|x| x.is_finite());
    attempts(name, props, defined, f, |v| {
        if v.len() == want.len() && v.iter().zip(&want).all(|(a, b)| close(*a, *b, scale, tol)) {
            None
        } else {
            Some(format!("got {:?}, expected {:?}", v, want))
        }
    });
}

/// An element-wise operation over any floats: every component up to its own rounding; `scale` is the size of the
/// terms that each component is made of.
pub fn runx(name: &str, props: u32, want: Vec<f64>, scale: Vec<f64>, f: impl Fn() -> Vec<f64>) {
    trace(|| format!("expect {} = {:?}", name, want));
    attempts(name, props, true, f, |v| {
        let ok = |a: f64, b: f64, s: f64| a == b || (a.is_nan() && b.is_nan()) || b.is_finite() && (a - b).abs() <= 1e-12 * b.abs().max(s) || (a - b).abs() < 1e-300;
        if v.len() == want.len() && (0..v.len()).all(|i| ok(v[i], want[i], scale.get(i).map_or(0.0, |x| x.abs()))) {
            None
        } else {
            Some(format!("got {:?}, expected {:?}", v, want))
        }
    });
}

// ---------------------------------------------------------------- reading and making operands

/// Operands of programs are often equal or related to earlier ones, sparse or coinciding: what is remembered of one
/// computation must not leak into the next, and special cases must be exact.
fn related<T: Copy>(old: &[Vec<T>], n: usize, zero: T, fresh: fn() -> T) -> Vec<T> {
    let mut r: Vec<T> = vec![];
    match if n == 0 { 0 } else { draw(16) } {
        15 | 14 => {
            let same: Vec<&Vec<T>> = old.iter().filter(|o| o.len() == n).collect();
            if !same.is_empty() {
                r = same[pick(same.len())].clone();
                if chance(2, 3) {
                    r[pick(n)] = fresh();
                }
                return r;
            }
        }
        13 => {
            // at most one is not zero
            r = vec![zero; n];
            r[pick(n)] = fresh();
            return r;
        }
        12 => return (0..n).map(|_| if chance(1, 2) { zero } else { fresh() }).collect(),
        11 => {
            // few distinct values
            let few = [fresh(), fresh()];
            return (0..n).map(|_| few[pick(2)]).collect();
        }
        _ => {}
    }
    r.extend((0..n).map(|_| fresh()));
    r
}
fn remember<T>(old: &mut Vec<Vec<T>>, r: Vec<T>) {
    if old.len() >= 12 {
        old.remove(0);
    }
    old.push(r);
}
pub fn recent() -> &'static mut Recent {
    let s = sim();
    let c = s.cur;
    &mut s.tasks[c].recent
}
pub fn remember_ints(r: &[u64]) {
    remember(&mut recent().ints, r.to_vec())
}
pub fn ints(n: usize) -> Vec<u64> {
    let r = related(&recent().ints, n, 0, arg);
    remember_ints(&r);
    trace(|| format!("data {:?}", r));
    r
}
pub fn flts(n: usize) -> Vec<f64> {
    let r = related(&recent().flts, n, 0.0, farg);
    remember(&mut recent().flts, r.clone());
    trace(|| format!("data {:?}", r));
    r
}
/// Floats of one scale, from tiny to huge (their squares are in range), some of them infinite.
pub fn spread(n: usize) -> Vec<f64> {
    let mut r = flts(n);
    if chance(1, 4) {
        let e = 10f64.powi([1, -1, 30, -30, 140, -140][pick(6)]);
        r.iter_mut().for_each(|x| *x *= e);
    } else if chance(1, 6) {
        // of length nearly one
        let len = r.iter().map(|x| x * x).sum::<f64>().sqrt();
        let e = 1.0 + [1.0, -1.0][pick(2)] * 10f64.powi(-1 - draw(17) as i32);
        if len > 0.0 {
            r.iter_mut().for_each(|x| *x *= e / len);
        }
    }
    if n > 0 && chance(1, 6) {
        for _ in 0..1 + pick(2) {
            r[pick(n)] = if chance(1, 2) { f64::INFINITY } else { f64::NEG_INFINITY };
        }
    }
    trace(|| format!("data {:?}", r));
    r
}
/// Any floats at all.
pub fn wild(n: usize) -> Vec<f64> {
    const SPECIAL: [f64; 26] = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 1.5, 2.5, -2.5, 1e300,
        -1e300, 1e-300, -1e-300, f64::MIN_POSITIVE, 5e-324, f64::MAX, f64::MIN, f64::EPSILON, 4503599627370497.5, 9007199254740993.0,
        std::f64::consts::PI, -std::f64::consts::FRAC_PI_2, 710.0];
    let mut r = flts(n);
    let k = draw(5);
    if k > 0 {
        for x in r.iter_mut() {
            if draw(5) < k {
                *x = SPECIAL[pick(SPECIAL.len())];
            } else if draw(8) == 7 {
                *x *= 10f64.powi(draw(40) as i32 - 20);
            }
        }
        trace(|| format!("data {:?}", r));
    }
    r
}
pub fn v<const N: usize>(a: &[u64]) -> Vector<Fp, N> {
    core::array::from_fn::<Fp, N, _>(|i| Fp(a[i])).into()
}
pub fn m<const M: usize, const N: usize>(a: &[u64]) -> Matrix<Fp, M, N> {
    core::array::from_fn::<[Fp; N], M, _>(|i| core::array::from_fn(|j| Fp(a[i * N + j]))).into()
}
pub fn vf<const N: usize>(a: &[f64]) -> Vector<Fl, N> {
    core::array::from_fn::<Fl, N, _>(|i| Fl(a[i])).into()
}
pub fn mf<const M: usize, const N: usize>(a: &[f64]) -> Matrix<Fl, M, N> {
    core::array::from_fn::<[Fl; N], M, _>(|i| core::array::from_fn(|j| Fl(a[i * N + j]))).into()
}
pub fn vo<const N: usize>(a: Vector<Fp, N>) -> Vec<u64> {
    a.as_array().iter().map(|x| x.0).collect()
}
pub fn mo<const M: usize, const N: usize>(a: Matrix<Fp, M, N>) -> Vec<u64> {
    a.as_array_of_arrays().iter().flatten().map(|x| x.0).collect()
}
pub fn vfo<const N: usize>(a: Vector<Fl, N>) -> Vec<f64> {
    a.as_array().iter().map(|x| x.0).collect()
}
pub fn mfo<const M: usize, const N: usize>(a: Matrix<Fl, M, N>) -> Vec<f64> {
    a.as_array_of_arrays().iter().flatten().map(|x| x.0).collect()
}

// ---------------------------------------------------------------- the driver

fn program(family: u32) {
    *recent() = Recent::default();
    match family {
        0 => crate::vecops::program(),
        1 => crate::numops::program(),
        _ => crate::transf::program(),
    }
}
/// A nested computation of the running family, drawing its data from the words of `seed`, related to the operands
/// of the computation that it interrupts.
pub fn nested(seed: u64) {
    let mut g = Rng64(seed);
    let tape = (0..160).map(|_| g.next()).collect();
    let kept = {
        let family = sim().family;
        trace(|| format!("nested computation of family {}", family));
        let s = sim();
        let c = s.cur;
        let t = &mut s.tasks[c];
        t.quiet = true;
        (t.tape.replace((tape, 0)), t.recent.clone(), family)
    };
    match kept.2 {
        0 => crate::vecops::op(),
        1 => crate::numops::op(),
        _ => crate::transf::op(),
    }
    let s = sim();
    let c = s.cur;
    let t = &mut s.tasks[c];
    t.quiet = false;
    t.tape = kept.0;
    t.recent = kept.1;
}
fn machine(main: u32) {
    swarm();
    sim().family = main;
    let (pf, pr) = (sim().p_fault, sim().p_reenter);
    sim().p_fault = 0;
    sim().p_reenter = 0;
    let n = 1 + sdraw(MAX_TASKS as u64) as usize;
    let mut tapes = vec![];
    for _ in 0..n {
        // other families disturb, too
        let family = if sdraw(8) == 7 { (main + 1 + sdraw(2) as u32) % 3 } else { main };
        trace(|| format!("--- program {} alone", tapes.len()));
        let t = record_tape(|| program(family));
        tapes.push((family, t));
        if !sim().viol.is_empty() {
            return;
        }
    }
    sim().p_fault = pf;
    sim().p_reenter = pr;
    trace(|| "--- all programs together".to_string());
    let jobs = tapes.into_iter().map(|(family, t)| {
        let job: Box<dyn FnOnce() + Send> = Box::new(move || program(family));
        (Some(t), job)
    });
    run_tasks(jobs.collect());
}
pub fn vec_machine() {
    machine(0)
}
pub fn num_machine() {
    machine(1)
}
pub fn transf_machine() {
    machine(2)
}
