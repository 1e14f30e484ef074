//! Histories of container operations over tracked move-only elements, with crashes inside them (C01, C02),
//! refined step by step against plain lists of numbers.

use crate::elems::*;
use crate::sim::*;
use crate::util::*;
use num_traits::{One, Zero};
use std::mem::MaybeUninit;
use vecmat::traits::{Dot, NormL1, NormLInf};
use vecmat::{Complex, Matrix, Quaternion, Vector};

const S: u32 = C02;
/// Values produced by operators belong to the algebra properties; the histories only need them to stay consistent.
const VAL: u32 = C06;

fn tr<T: Copy>(v: &[T], m: usize, n: usize) -> Vec<T> {
    let mut r = vec![];
    for j in 0..n {
        for i in 0..m {
            r.push(v[i * n + j]);
        }
    }
    r
}
struct H<const M: usize, const N: usize> {
    v: Vec<(Vector<Tok, N>, Vec<u64>)>,
    a: Vec<(Matrix<Tok, M, N>, Vec<u64>)>,
    base: i64,
}

impl<const M: usize, const N: usize> H<M, N> {
    fn tv(&mut self) -> (Vector<Tok, N>, Vec<u64>) {
        if self.v.is_empty() || chance(1, 4) {
            let m = fresh(N);
            (Vector::from_array(arr(&m)), m)
        } else {
            let i = pick(self.v.len());
            self.v.swap_remove(i)
        }
    }
    fn ta(&mut self) -> (Matrix<Tok, M, N>, Vec<u64>) {
        if self.a.is_empty() || chance(1, 4) {
            let m = fresh(M * N);
            (Matrix::from_array_of_arrays(arr2(&m)), m)
        } else {
            let i = pick(self.a.len());
            self.a.swap_remove(i)
        }
    }
    fn pv(&mut self, props: u32, name: &str, v: Vector<Tok, N>, want: Vec<u64>) {
        let got = vread(&v);
        same(props, name, &got, &want);
        trace(|| format!("  = {:?}", got));
        self.v.push((v, got));
    }
    fn pa(&mut self, props: u32, name: &str, v: Matrix<Tok, M, N>, want: Vec<u64>) {
        let got = mread(&v);
        same(props, name, &got, &want);
        trace(|| format!("  = {:?}", got));
        self.a.push((v, got));
    }
    fn expected(&self) -> i64 {
        (self.v.len() * N + self.a.len() * M * N) as i64 + self.base
    }
    fn balance(&mut self, name: &str) {
        let (l, e) = (live(), self.expected());
        if l != e && compiler_leak(l, e) {
            self.base += l - e;
        } else if l != e {
            let what = if l > e { "leaked" } else { "lost" };
            violation(C01, format!("{}:{}", what, name),
                format!("after {} {} elements are alive, {} are reachable", name, l, e));
            self.base += l - e;
        }
        // borrowed or untouched containers are intact
        for i in 0..self.v.len() {
            let got = vread(&self.v[i].0);
            if got != self.v[i].1 {
                violation(C01 | S, format!("bystander:{}", name),
                    format!("{} changed another vector from {:?} to {:?}", name, self.v[i].1, got));
            }
        }
        for i in 0..self.a.len() {
            let got = mread(&self.a[i].0);
            if got != self.a[i].1 {
                violation(C01 | S, format!("bystander:{}", name),
                    format!("{} changed another matrix from {:?} to {:?}", name, self.a[i].1, got));
            }
        }
    }
    fn opt_v(&mut self, props: u32, name: &str, r: Result<Vector<Tok, N>, Stop>, want: Option<Vec<u64>>) {
        match (r, want) {
            (Ok(v), Some(w)) => self.pv(props, name, v, w),
            (Ok(v), None) => {
                let got = vread(&v);
                self.v.push((v, got))
            }
            _ => {}
        }
    }
    fn opt_a(&mut self, props: u32, name: &str, r: Result<Matrix<Tok, M, N>, Stop>, want: Option<Vec<u64>>) {
        match (r, want) {
            (Ok(v), Some(w)) => self.pa(props, name, v, w),
            (Ok(v), None) => {
                let got = mread(&v);
                self.a.push((v, got))
            }
            _ => {}
        }
    }

    fn step(&mut self) -> &'static str {
        if chance(1, 2) {
            self.mat_op()
        } else {
            self.vec_op()
        }
    }

    fn vec_op(&mut self) -> &'static str {
        let k = pick(46);
        match k {
            0 => {
                let name = "Vector::init";
                let m = fresh(N);
                calls_clear();
                let mut i = 0;
                let mm = m.clone();
                let r = exec(name, S, ALL_SEAMS, || Vector::<Tok, N>::init(|| {
                    call(i as u64);
                    seam(Seam::Closure, i as u64);
                    i += 1;
                    // one call too many still yields an element; the call log reports it
                    Tok::new(mm.get(i - 1).copied().unwrap_or(0))
                }));
                check_calls(S, name, &r, &(0..N as u64).collect::<Vec<_>>());
                self.opt_v(S, name, r, Some(m));
                name
            }
            1 => {
                let name = "Vector::default";
                let n = chance(1, 2);
                let r = exec(name, S, ALL_SEAMS, || if n { Vector::<Tok, N>::new() } else { Vector::default() });
                self.opt_v(S, name, r, Some(vec![DEFAULT; N]));
                name
            }
            2 => {
                let name = "Vector::zero";
                let r = exec(name, VAL, ALL_SEAMS, Vector::<Tok, N>::zero);
                self.opt_v(VAL, name, r, Some(vec![0; N]));
                name
            }
            3 => {
                let name = "Vector::clone";
                let (v, m) = self.tv();
                let r = exec(name, S, ALL_SEAMS, || v.clone());
                self.v.push((v, m.clone()));
                self.opt_v(S, name, r, Some(m));
                name
            }
            4 => {
                let name = "Vector::map";
                let (v, m) = self.tv();
                calls_clear();
                let d = uniq();
                let r = exec(name, S, ALL_SEAMS, || v.map(|t| {
                    let x = t.get();
                    call(x);
                    seam(Seam::Closure, x);
                    drop(t);
                    Tok::new(addm(x, d))
                }));
                check_calls(S, name, &r, &m);
                self.opt_v(S, name, r, Some(m.iter().map(|x| addm(*x, d)).collect()));
                name
            }
            5 => {
                let name = "Vector::map (to another type)";
                let (v, m) = self.tv();
                calls_clear();
                let r = exec(name, S, ALL_SEAMS, || v.map(|t| {
                    call(t.get());
                    seam(Seam::Closure, t.get());
                    Some((t, Zst::new()))
                }));
                check_calls(S, name, &r, &m);
                if let Ok(w) = r {
                    let got: Vec<u64> = (0..N).map(|i| w[i].as_ref().unwrap().0.get()).collect();
                    same(S, name, &got, &m);
                    let r = exec("drop", C01, ALL_SEAMS, move || drop(w));
                    let _ = r;
                }
                name
            }
            6 => {
                let name = "Vector::zip/unzip";
                let (v, m) = self.tv();
                let (w, n) = self.tv();
                let r = exec("Vector::zip", S, ALL_SEAMS, || v.zip(w));
                if let Ok(z) = r {
                    let got: Vec<u64> = (0..N).flat_map(|i| [z[i].0.get(), z[i].1.get()]).collect();
                    let want: Vec<u64> = m.iter().zip(&n).flat_map(|(a, b)| [*a, *b]).collect();
                    same(S, "Vector::zip", &got, &want);
                    let r = exec("Vector::unzip", S, ALL_SEAMS, || z.unzip());
                    if let Ok((p, q)) = r {
                        self.pv(S, "Vector::unzip", p, m);
                        self.pv(S, "Vector::unzip", q, n);
                    }
                }
                name
            }
            7 => {
                let name = "Vector::enumerate";
                let (v, m) = self.tv();
                let r = exec(name, S, ALL_SEAMS, || v.enumerate());
                if let Ok(z) = r {
                    let idx: Vec<u64> = (0..N).map(|i| z[i].0 as u64).collect();
                    same(S, name, &idx, &(0..N as u64).collect::<Vec<_>>());
                    let r = exec("Vector::unzip", S, ALL_SEAMS, || z.unzip().1);
                    self.opt_v(S, name, r, Some(m));
                }
                name
            }
            8 => {
                let name = "Vector::for_each";
                let (v, m) = self.tv();
                calls_clear();
                let mut kept = Vec::with_capacity(N);
                let r = exec(name, S, ALL_SEAMS, || v.for_each(|t| {
                    call(t.get());
                    kept.push(t);
                    seam(Seam::Closure, 1);
                }));
                check_calls(S, name, &r, &m);
                let got: Vec<u64> = kept.iter().map(Tok::get).collect();
                same(S, name, &got, &m[..got.len().min(N)]);
                name
            }
            9 => {
                let name = "Vector::fold";
                let (v, m) = self.tv();
                calls_clear();
                let r = exec(name, S, ALL_SEAMS, || v.fold(Tok::new(5), |s, t| {
                    call(t.get());
                    seam(Seam::Closure, t.get());
                    let x = addm(mulm(s.get(), 31), t.get());
                    drop(s);
                    drop(t);
                    Tok::new(x)
                }));
                check_calls(S, name, &r, &m);
                if let Ok(t) = r {
                    let want = m.iter().fold(5, |s, x| addm(mulm(s, 31), *x));
                    same(S, name, &[t.get()], &[want]);
                    drop(t);
                }
                name
            }
            10 if N > 0 => {
                let name = "Vector::fold_first";
                let (v, m) = self.tv();
                calls_clear();
                let r = exec(name, S, ALL_SEAMS, || v.fold_first(|s, t| {
                    call(t.get());
                    seam(Seam::Closure, t.get());
                    let x = addm(mulm(s.get(), 31), t.get());
                    drop(s);
                    drop(t);
                    Tok::new(x)
                }));
                check_calls(S, name, &r, &m[1..]);
                if let Ok(t) = r {
                    let want = m[1..].iter().fold(m[0], |s, x| addm(mulm(s, 31), *x));
                    same(S, name, &[t.get()], &[want]);
                    drop(t);
                }
                name
            }
            11 => {
                let name = "Vector::scan";
                let (v, m) = self.tv();
                calls_clear();
                let r = exec(name, S, ALL_SEAMS, || v.scan(Tok::new(7), |s, t| {
                    let x = t.get();
                    call(x);
                    seam(Seam::Closure, x);
                    drop(t);
                    let y = addm(mulm(s.get(), 31), x);
                    *s = Tok::new(y);
                    Tok::new(y)
                }));
                check_calls(S, name, &r, &m);
                let mut s = 7;
                let want = m.iter().map(|x| { s = addm(mulm(s, 31), *x); s }).collect();
                self.opt_v(S, name, r, Some(want));
                name
            }
            12..=16 => {
                let (v, m) = self.tv();
                let (w, n) = self.tv();
                let (name, r, want) = match k {
                    12 => ("Vector +", exec("Vector +", VAL, ALL_SEAMS, || v + w), zipm(&m, &n, |a, b| Some(addm(a, b)))),
                    13 => ("Vector -", exec("Vector -", VAL, ALL_SEAMS, || v - w), zipm(&m, &n, |a, b| Some(subm(a, b)))),
                    14 => ("Vector *", exec("Vector *", VAL, ALL_SEAMS, || v * w), zipm(&m, &n, |a, b| Some(mulm(a, b)))),
                    15 => ("Vector /", exec("Vector /", VAL, ALL_SEAMS, || v / w), zipm(&m, &n, divm)),
                    _ => ("Vector %", exec("Vector %", VAL, ALL_SEAMS, || v % w), zipm(&m, &n, |a, b| if b == 0 { None } else { Some(a % b) })),
                };
                self.opt_v(VAL, name, r, want);
                name
            }
            17..=19 => {
                let (v, m) = self.tv();
                let (w, n) = self.tv();
                let (name, r, want) = match k {
                    17 => ("Vector &", exec("Vector &", VAL, ALL_SEAMS, || v & w), zipm(&m, &n, |a, b| Some(andm(a, b)))),
                    18 => ("Vector |", exec("Vector |", VAL, ALL_SEAMS, || v | w), zipm(&m, &n, |a, b| Some(orm(a, b)))),
                    _ => ("Vector ^", exec("Vector ^", VAL, ALL_SEAMS, || v ^ w), zipm(&m, &n, |a, b| Some(xorm(a, b)))),
                };
                self.opt_v(VAL, name, r, want);
                name
            }
            20 => {
                let (v, m) = self.tv();
                let n = chance(1, 2);
                let name = if n { "-Vector" } else { "!Vector" };
                let r = exec(name, VAL, ALL_SEAMS, || if n { -v } else { !v });
                self.opt_v(VAL, name, r, Some(m.iter().map(|x| if n { negm(*x) } else { notm(*x) }).collect()));
                name
            }
            21 if N > 0 => {
                let name = "Vector::dot";
                let (v, m) = self.tv();
                let (w, n) = self.tv();
                let r = exec(name, VAL, ALL_SEAMS, || v.dot(w));
                if let Ok(t) = r {
                    same(VAL, name, &[t.get()], &[m.iter().zip(&n).fold(0, |s, (a, b)| addm(s, mulm(*a, *b)))]);
                    drop(t);
                }
                name
            }
            22 if N > 0 => {
                let (v, m) = self.tv();
                let w = pick(5);
                let name = ["Vector::sum", "Vector::max", "Vector::min", "Vector::norm_l1", "Vector::norm_l_inf"][w];
                let mask = if (1..=2).contains(&w) || w == 4 { ALL_SEAMS } else { ALL_SEAMS };
                let r = exec(name, VAL, mask, || match w {
                    0 => v.sum(),
                    1 => v.max(),
                    2 => v.min(),
                    3 => v.norm_l1(),
                    _ => v.norm_l_inf(),
                });
                if let Ok(t) = r {
                    let want = match w {
                        0 => m.iter().fold(0, |s, a| addm(s, *a)),
                        1 => *m.iter().max().unwrap(),
                        2 => *m.iter().min().unwrap(),
                        3 => m.iter().fold(0, |s, a| addm(s, l1m(*a))),
                        _ => m.iter().map(|a| linfm(*a)).max().unwrap(),
                    };
                    same(VAL, name, &[t.get()], &[want]);
                    drop(t);
                }
                name
            }
            23 => {
                let (v, m) = self.tv();
                let (w, n) = self.tv();
                let o = pick(6);
                let name = ["Vector::veq", "Vector::vne", "Vector::vlt", "Vector::vle", "Vector::vgt", "Vector::vge"][o];
                let r = exec(name, VAL, ALL_SEAMS, || match o {
                    0 => v.veq(w),
                    1 => v.vne(w),
                    2 => v.vlt(w),
                    3 => v.vle(w),
                    4 => v.vgt(w),
                    _ => v.vge(w),
                });
                if let Ok(b) = r {
                    let got: Vec<u64> = (0..N).map(|i| b2u(b[i])).collect();
                    let f: fn(u64, u64) -> bool = [|a, b| a == b, |a, b| a != b, |a, b| a < b, |a, b| a <= b, |a, b| a > b, |a, b| a >= b][o];
                    let want: Vec<u64> = m.iter().zip(&n).map(|(a, b)| b2u(f(*a, *b))).collect();
                    same(VAL, name, &got, &want);
                }
                name
            }
            24 => {
                let (v, m) = self.tv();
                let (w, n) = self.tv();
                let o = pick(3);
                let name = ["Vector::div_floor", "Vector::mod_floor", "Vector::div_mod_floor"][o];
                let r = exec(name, VAL, ALL_SEAMS, || match o {
                    0 => (v.div_floor(w), None),
                    1 => (v.mod_floor(w), None),
                    _ => {
                        let (a, b) = v.div_mod_floor(w);
                        (a, Some(b))
                    }
                });
                if let Ok((a, b)) = r {
                    let d = zipm(&m, &n, |a, b| if b == 0 { None } else { Some(a / b) });
                    let q = zipm(&m, &n, |a, b| if b == 0 { None } else { Some(a % b) });
                    self.opt_v(VAL, name, Ok(a), if o == 1 { q.clone() } else { d });
                    if let Some(b) = b {
                        self.opt_v(VAL, name, Ok(b), q);
                    }
                }
                name
            }
            25 => {
                let name = "Vector ==";
                let (v, m) = self.tv();
                let eqv = chance(1, 2);
                let n = if eqv { m.clone() } else { let mut n = m.clone(); if N > 0 { let i = pick(N); n[i] = uniq(); } n };
                let w = Vector::<Tok, N>::from(arr(&n));
                let r = exec(name, S, ALL_SEAMS, || v == w);
                if let Ok(b) = r {
                    same(S, name, &[b2u(b)], &[b2u(m == n)]);
                }
                self.v.push((v, m));
                self.v.push((w, n));
                name
            }
            26 => {
                let name = "Vector::is_zero";
                let (v, m) = self.tv();
                let r = exec(name, VAL, ALL_SEAMS, || v.is_zero());
                if let Ok(b) = r {
                    same(VAL, name, &[b2u(b)], &[b2u(m.iter().all(|x| *x == 0))]);
                }
                self.v.push((v, m));
                name
            }
            27 => {
                let name = "Sum/Product of vectors";
                let cnt = pick(4);
                let (mut items, mut ms) = (vec![], vec![]);
                for _ in 0..cnt {
                    let (v, m) = self.tv();
                    items.push(v);
                    ms.push(m);
                }
                let p = chance(1, 2);
                let mut it = items.into_iter();
                let r = exec(name, VAL, ALL_SEAMS, || if p {
                    it.by_ref().inspect(|_| { seam(Seam::Pull, 0); }).product::<Vector<Tok, N>>()
                } else {
                    it.by_ref().inspect(|_| { seam(Seam::Pull, 0); }).sum::<Vector<Tok, N>>()
                });
                let want = ms.iter().fold(vec![b2u(p); N], |s, m| {
                    s.iter().zip(m).map(|(a, b)| if p { mulm(*a, *b) } else { addm(*a, *b) }).collect()
                });
                self.opt_v(VAL, name, r, Some(want));
                // items not consumed because of a crash are dropped with the source
                drop(it);
                name
            }
            28 => {
                let name = "Vector array conversions";
                let (v, m) = self.tv();
                let a: [Tok; N] = if chance(1, 2) { v.into_array() } else { v.into() };
                let got: Vec<u64> = a.iter().map(Tok::get).collect();
                same(S, "Vector::into_array", &got, &m);
                let v: Vector<Tok, N> = if chance(1, 2) { Vector::from_array(a) } else { a.into() };
                self.pv(S, name, v, m);
                name
            }
            29 => {
                let name = "Vector references";
                let (mut v, mut m) = self.tv();
                let n = uniq();
                {
                    let a: &[Tok; N] = match pick(3) {
                        0 => v.as_array(),
                        1 => v.as_ref(),
                        _ => (&v).into(),
                    };
                    let got: Vec<u64> = a.iter().map(Tok::get).collect();
                    same(S, "Vector::as_array", &got, &m);
                }
                if N > 0 {
                    let i = pick(N);
                    let how = pick(6);
                    let t = Tok::new(n);
                    match how {
                        0 => v.as_mut_array()[i] = t,
                        1 => v.as_mut()[i] = t,
                        2 => {
                            let a: &mut [Tok; N] = (&mut v).into();
                            a[i] = t
                        }
                        3 => v[i] = t,
                        4 => *unsafe { v.get_unchecked_mut(i) } = t,
                        _ => *unsafe { &mut *v.as_mut_ptr().add(i) } = t,
                    }
                    m[i] = n;
                    let got = match pick(3) {
                        0 => v[i].get(),
                        1 => unsafe { v.get_unchecked(i) }.get(),
                        _ => unsafe { &*v.as_ptr().add(i) }.get(),
                    };
                    same(S, "Vector element access", &[got], &[n]);
                }
                self.pv(S, name, v, m);
                name
            }
            30 => {
                let name = "Vector::uninit/assume_init";
                let m = fresh(N);
                let mut u = Vector::<Tok, N>::uninit();
                for (x, val) in u.iter_mut().zip(&m) {
                    *x = MaybeUninit::new(Tok::new(*val));
                }
                let v = unsafe { u.assume_init() };
                self.pv(S, name, v, m);
                name
            }
            31 => {
                let name = "Vector::indices";
                let v = Vector::<usize, N>::indices();
                let got: Vec<u64> = (0..N).map(|i| v[i] as u64).collect();
                same(S, name, &got, &(0..N as u64).collect::<Vec<_>>());
                name
            }
            32 => {
                let name = "drop Vector";
                let (v, _) = self.tv();
                let _ = exec(name, C01, ALL_SEAMS, move || drop(v));
                name
            }
            33 => {
                let name = "Matrix::diagonal";
                let (v, m) = self.tv();
                let r = exec(name, S, ALL_SEAMS, || Matrix::<Tok, N, N>::diagonal(v));
                if let Ok(d) = r {
                    let mut want = vec![0; N * N];
                    for i in 0..N {
                        want[i * N + i] = m[i];
                    }
                    same(S, name, &mread(&d), &want);
                    drop(d);
                }
                name
            }
            34 => {
                let name = "Matrix::one";
                let r = exec(name, S, ALL_SEAMS, Matrix::<Tok, N, N>::one);
                if let Ok(d) = r {
                    let want: Vec<u64> = (0..N * N).map(|x| b2u(x / N == x % N)).collect();
                    same(S, name, &mread(&d), &want);
                    drop(d);
                }
                name
            }
            35 => {
                let name = "Vector::into_iter().collect";
                let (v, m) = self.tv();
                let mut kept = Vec::with_capacity(N);
                let r = exec(name, S, ALL_SEAMS, || for t in v {
                    kept.push(t);
                    seam(Seam::Body, 0);
                });
                let got: Vec<u64> = kept.iter().map(Tok::get).collect();
                same(S, name, &got, if r.is_ok() { &m } else { &m[..got.len().min(N)] });
                name
            }
            36 => {
                let name = "Vector::map over pairs";
                let (v, m) = self.tv();
                let (w, n) = self.tv();
                calls_clear();
                let r = exec(name, S, ALL_SEAMS, || v.zip(w).map(|(a, b)| {
                    call(a.get());
                    call(b.get());
                    seam(Seam::Closure, a.get());
                    drop(b);
                    a
                }));
                let want: Vec<u64> = m.iter().zip(&n).flat_map(|(a, b)| [*a, *b]).collect();
                check_calls(S, name, &r, &want);
                self.opt_v(S, name, r, Some(m));
                name
            }
            37..=41 => fixed_shapes(),
            42 => out_of_range::<M, N>(),
            43 => copy_shapes::<M, N>(),
            _ => {
                zst_ops::<M, N>()
            }
        }
    }

    fn mat_op(&mut self) -> &'static str {
        let k = pick(36);
        match k {
            0 => {
                let name = "Matrix::init";
                let m = fresh(M * N);
                calls_clear();
                let mut i = 0;
                let mm = m.clone();
                let r = exec(name, S, ALL_SEAMS, || Matrix::<Tok, M, N>::init(|| {
                    call(i as u64);
                    seam(Seam::Closure, i as u64);
                    i += 1;
                    Tok::new(mm.get(i - 1).copied().unwrap_or(0))
                }));
                check_calls(S, name, &r, &(0..(M * N) as u64).collect::<Vec<_>>());
                self.opt_a(S, name, r, Some(m));
                name
            }
            1 => {
                let name = "Matrix::default";
                let n = chance(1, 2);
                let r = exec(name, S, ALL_SEAMS, || if n { Matrix::<Tok, M, N>::new() } else { Matrix::default() });
                self.opt_a(S, name, r, Some(vec![DEFAULT; M * N]));
                name
            }
            2 => {
                let name = "Matrix::zero";
                let r = exec(name, VAL, ALL_SEAMS, Matrix::<Tok, M, N>::zero);
                self.opt_a(VAL, name, r, Some(vec![0; M * N]));
                name
            }
            3 => {
                let name = "Matrix::clone";
                let (v, m) = self.ta();
                let r = exec(name, S, ALL_SEAMS, || v.clone());
                self.a.push((v, m.clone()));
                self.opt_a(S, name, r, Some(m));
                name
            }
            4 => {
                let name = "Matrix::map";
                let (v, m) = self.ta();
                calls_clear();
                let d = uniq();
                let r = exec(name, S, ALL_SEAMS, || v.map(|t| {
                    let x = t.get();
                    call(x);
                    seam(Seam::Closure, x);
                    drop(t);
                    Tok::new(addm(x, d))
                }));
                check_calls(S, name, &r, &m);
                self.opt_a(S, name, r, Some(m.iter().map(|x| addm(*x, d)).collect()));
                name
            }
            5 => {
                let name = "Matrix::zip/unzip";
                let (v, m) = self.ta();
                let (w, n) = self.ta();
                let r = exec("Matrix::zip", S, ALL_SEAMS, || v.zip(w));
                if let Ok(z) = r {
                    let mut got = vec![];
                    for i in 0..M {
                        for j in 0..N {
                            got.push(z[(i, j)].0.get());
                            got.push(z[(i, j)].1.get());
                        }
                    }
                    let want: Vec<u64> = m.iter().zip(&n).flat_map(|(a, b)| [*a, *b]).collect();
                    same(S, "Matrix::zip", &got, &want);
                    let r = exec("Matrix::unzip", S, ALL_SEAMS, || z.unzip());
                    if let Ok((p, q)) = r {
                        self.pa(S, "Matrix::unzip", p, m);
                        self.pa(S, "Matrix::unzip", q, n);
                    }
                }
                name
            }
            6 => {
                let name = "Matrix::for_each";
                let (v, m) = self.ta();
                calls_clear();
                let mut kept = Vec::with_capacity(M * N);
                let r = exec(name, S, ALL_SEAMS, || v.for_each(|t| {
                    call(t.get());
                    kept.push(t);
                    seam(Seam::Closure, 1);
                }));
                check_calls(S, name, &r, &m);
                name
            }
            7 => {
                let name = "Matrix::fold";
                let (v, m) = self.ta();
                calls_clear();
                let r = exec(name, S, ALL_SEAMS, || v.fold(Tok::new(5), |s, t| {
                    call(t.get());
                    seam(Seam::Closure, t.get());
                    let x = addm(mulm(s.get(), 31), t.get());
                    drop(s);
                    drop(t);
                    Tok::new(x)
                }));
                check_calls(S, name, &r, &m);
                if let Ok(t) = r {
                    let want = m.iter().fold(5, |s, x| addm(mulm(s, 31), *x));
                    same(S, name, &[t.get()], &[want]);
                    drop(t);
                }
                name
            }
            8 if M * N > 0 => {
                let name = "Matrix::fold_first";
                let (v, m) = self.ta();
                calls_clear();
                let r = exec(name, S, ALL_SEAMS, || v.fold_first(|s, t| {
                    call(t.get());
                    seam(Seam::Closure, t.get());
                    let x = addm(mulm(s.get(), 31), t.get());
                    drop(s);
                    drop(t);
                    Tok::new(x)
                }));
                check_calls(S, name, &r, &m[1..]);
                if let Ok(t) = r {
                    let want = m[1..].iter().fold(m[0], |s, x| addm(mulm(s, 31), *x));
                    same(S, name, &[t.get()], &[want]);
                    drop(t);
                }
                name
            }
            9 => {
                let name = "Matrix::scan";
                let (v, m) = self.ta();
                calls_clear();
                let r = exec(name, S, ALL_SEAMS, || v.scan(Tok::new(7), |s: &mut Tok, t| {
                    let x = t.get();
                    call(x);
                    seam(Seam::Closure, x);
                    drop(t);
                    let y = addm(mulm(s.get(), 31), x);
                    *s = Tok::new(y);
                    Tok::new(y)
                }));
                check_calls(S, name, &r, &m);
                let mut s = 7;
                let want = m.iter().map(|x| { s = addm(mulm(s, 31), *x); s }).collect();
                self.opt_a(S, name, r, Some(want));
                name
            }
            10 => {
                let name = "Matrix::transpose";
                let (v, m) = self.ta();
                let r = exec(name, S, ALL_SEAMS, || v.transpose());
                if let Ok(t) = r {
                    let got = mread(&t);
                    same(S, name, &got, &tr(&m, M, N));
                    if chance(1, 2) {
                        let r = exec(name, S, ALL_SEAMS, || t.transpose());
                        self.opt_a(S, name, r, Some(m));
                    } else {
                        let _ = exec("drop", C01, ALL_SEAMS, move || drop(t));
                    }
                }
                name
            }
            11..=15 => {
                let (v, m) = self.ta();
                let (w, n) = self.ta();
                let (name, r, want) = match k {
                    11 => ("Matrix +", exec("Matrix +", VAL, ALL_SEAMS, || v + w), zipm(&m, &n, |a, b| Some(addm(a, b)))),
                    12 => ("Matrix -", exec("Matrix -", VAL, ALL_SEAMS, || v - w), zipm(&m, &n, |a, b| Some(subm(a, b)))),
                    13 => ("Matrix *", exec("Matrix *", VAL, ALL_SEAMS, || v * w), zipm(&m, &n, |a, b| Some(mulm(a, b)))),
                    14 => ("Matrix /", exec("Matrix /", VAL, ALL_SEAMS, || v / w), zipm(&m, &n, divm)),
                    _ => ("Matrix %", exec("Matrix %", VAL, ALL_SEAMS, || v % w), zipm(&m, &n, |a, b| if b == 0 { None } else { Some(a % b) })),
                };
                self.opt_a(VAL, name, r, want);
                name
            }
            16 => {
                let (v, m) = self.ta();
                let (w, n) = self.ta();
                let o = pick(3);
                let name = ["Matrix &", "Matrix |", "Matrix ^"][o];
                let r = exec(name, VAL, ALL_SEAMS, || match o {
                    0 => v & w,
                    1 => v | w,
                    _ => v ^ w,
                });
                let f = [andm, orm, xorm][o];
                self.opt_a(VAL, name, r, zipm(&m, &n, |a, b| Some(f(a, b))));
                name
            }
            17 => {
                let (v, m) = self.ta();
                let n = chance(1, 2);
                let name = if n { "-Matrix" } else { "!Matrix" };
                let r = exec(name, VAL, ALL_SEAMS, || if n { -v } else { !v });
                self.opt_a(VAL, name, r, Some(m.iter().map(|x| if n { negm(*x) } else { notm(*x) }).collect()));
                name
            }
            18 if M * N > 0 => {
                let (v, m) = self.ta();
                let w = pick(5);
                let name = ["Matrix::sum", "Matrix::max", "Matrix::min", "Matrix::norm_l1", "Matrix::norm_l_inf"][w];
                let mask = if (1..=2).contains(&w) || w == 4 { ALL_SEAMS } else { ALL_SEAMS };
                let r = exec(name, VAL, mask, || match w {
                    0 => v.sum(),
                    1 => v.max(),
                    2 => v.min(),
                    3 => v.norm_l1(),
                    _ => v.norm_l_inf(),
                });
                if let Ok(t) = r {
                    let want = match w {
                        0 => m.iter().fold(0, |s, a| addm(s, *a)),
                        1 => *m.iter().max().unwrap(),
                        2 => *m.iter().min().unwrap(),
                        3 => m.iter().fold(0, |s, a| addm(s, l1m(*a))),
                        _ => m.iter().map(|a| linfm(*a)).max().unwrap(),
                    };
                    same(VAL, name, &[t.get()], &[want]);
                    drop(t);
                }
                name
            }
            19 => {
                let (v, m) = self.ta();
                let (w, n) = self.ta();
                let o = pick(6);
                let name = ["Matrix::veq", "Matrix::vne", "Matrix::vlt", "Matrix::vle", "Matrix::vgt", "Matrix::vge"][o];
                let r = exec(name, VAL, ALL_SEAMS, || match o {
                    0 => v.veq(w),
                    1 => v.vne(w),
                    2 => v.vlt(w),
                    3 => v.vle(w),
                    4 => v.vgt(w),
                    _ => v.vge(w),
                });
                if let Ok(b) = r {
                    let got: Vec<u64> = (0..M * N).map(|x| b2u(b[(x / N, x % N)])).collect();
                    let f: fn(u64, u64) -> bool = [|a, b| a == b, |a, b| a != b, |a, b| a < b, |a, b| a <= b, |a, b| a > b, |a, b| a >= b][o];
                    let want: Vec<u64> = m.iter().zip(&n).map(|(a, b)| b2u(f(*a, *b))).collect();
                    same(VAL, name, &got, &want);
                }
                name
            }
            20 => {
                let name = "Matrix ==";
                let (v, m) = self.ta();
                let n = if chance(1, 2) || M * N == 0 { m.clone() } else { let mut n = m.clone(); let i = pick(M * N); n[i] = uniq(); n };
                let w = Matrix::<Tok, M, N>::from(arr2(&n));
                let r = exec(name, S, ALL_SEAMS, || v == w);
                if let Ok(b) = r {
                    same(S, name, &[b2u(b)], &[b2u(m == n)]);
                }
                self.a.push((v, m));
                self.a.push((w, n));
                name
            }
            21 => {
                let name = "Matrix::is_zero";
                let (v, m) = self.ta();
                let r = exec(name, VAL, ALL_SEAMS, || v.is_zero());
                if let Ok(b) = r {
                    same(VAL, name, &[b2u(b)], &[b2u(m.iter().all(|x| *x == 0))]);
                }
                self.a.push((v, m));
                name
            }
            22 => {
                let name = "Sum/Product of matrices";
                let cnt = pick(3);
                let (mut items, mut ms) = (vec![], vec![]);
                for _ in 0..cnt {
                    let (v, m) = self.ta();
                    items.push(v);
                    ms.push(m);
                }
                let p = chance(1, 2);
                let mut it = items.into_iter();
                let r = exec(name, VAL, ALL_SEAMS, || if p {
                    it.by_ref().inspect(|_| { seam(Seam::Pull, 0); }).product::<Matrix<Tok, M, N>>()
                } else {
                    it.by_ref().inspect(|_| { seam(Seam::Pull, 0); }).sum::<Matrix<Tok, M, N>>()
                });
                let want = ms.iter().fold(vec![b2u(p); M * N], |s, m| {
                    s.iter().zip(m).map(|(a, b)| if p { mulm(*a, *b) } else { addm(*a, *b) }).collect()
                });
                self.opt_a(VAL, name, r, Some(want));
                drop(it);
                name
            }
            23..=26 => {
                let name = "Matrix conversions";
                let (v, m) = self.ta();
                // out of the matrix and back again, each by a drawn route
                let rows = |a: &[[Tok; N]; M]| -> Vec<u64> { a.iter().flatten().map(Tok::get).collect() };
                let a: [[Tok; N]; M] = match pick(6) {
                    0 => v.into_array_of_arrays(),
                    1 => v.into(),
                    2 => v.into_vector_of_vectors().into_array().map(|r| r.into_array()),
                    3 => v.into_array_of_vectors().map(|r| r.into_array()),
                    4 => {
                        let w: Vector<Vector<Tok, N>, M> = v.into();
                        w.into_array().map(|r| r.into_array())
                    }
                    _ => {
                        let w: [Vector<Tok, N>; M] = v.into();
                        w.map(|r| r.into_array())
                    }
                };
                same(S, "Matrix into arrays", &rows(&a), &m);
                let v: Matrix<Tok, M, N> = match pick(6) {
                    0 => Matrix::from_array_of_arrays(a),
                    1 => a.into(),
                    2 => Matrix::from_array_of_vectors(a.map(Vector::from)),
                    3 => a.map(Vector::from).into(),
                    4 => Matrix::from_vector_of_vectors(Vector::from(a.map(Vector::from))),
                    _ => Vector::from(a.map(Vector::from)).into(),
                };
                self.pa(S, name, v, m);
                name
            }
            27..=29 => {
                let name = "Matrix references";
                let (mut v, mut m) = self.ta();
                {
                    let got: Vec<u64> = match pick(7) {
                        0 => v.as_array_of_arrays().iter().flatten().map(Tok::get).collect(),
                        1 => v.as_array_of_vectors().iter().flat_map(|r| r.as_array()).map(Tok::get).collect(),
                        2 => v.as_vector_of_vectors().as_array().iter().flat_map(|r| r.as_array()).map(Tok::get).collect(),
                        3 => {
                            let r: &[[Tok; N]; M] = (&v).into();
                            r.iter().flatten().map(Tok::get).collect()
                        }
                        4 => {
                            let r: &Vector<Vector<Tok, N>, M> = if chance(1, 2) { (&v).into() } else { v.as_ref() };
                            r.as_array().iter().flat_map(|r| r.as_array()).map(Tok::get).collect()
                        }
                        5 => (0..M).flat_map(|i| vread(v.row_ref(i))).collect(),
                        _ => (0..M * N).map(|x| unsafe { &*v.as_ptr().add(x) }.get()).collect(),
                    };
                    same(S, "Matrix read access", &got, &m);
                }
                if M * N > 0 {
                    let (i, j) = (pick(M), pick(N));
                    let n = uniq();
                    let t = Tok::new(n);
                    match pick(9) {
                        0 => v[(i, j)] = t,
                        1 => v.as_mut_array_of_arrays()[i][j] = t,
                        2 => v.as_mut_array_of_vectors()[i][j] = t,
                        3 => v.as_mut_vector_of_vectors()[i][j] = t,
                        4 => v.row_mut(i)[j] = t,
                        5 => *unsafe { v.get_unchecked_mut(i, j) } = t,
                        6 => *unsafe { &mut *v.as_mut_ptr().add(i * N + j) } = t,
                        7 => {
                            let r: &mut [[Tok; N]; M] = (&mut v).into();
                            r[i][j] = t
                        }
                        _ => {
                            let r: &mut Vector<Vector<Tok, N>, M> = if chance(1, 2) { (&mut v).into() } else { v.as_mut() };
                            r[i][j] = t
                        }
                    }
                    m[i * N + j] = n;
                    let got = match pick(3) {
                        0 => v[(i, j)].get(),
                        1 => unsafe { v.get_unchecked(i, j) }.get(),
                        _ => v.row_ref(i)[j].get(),
                    };
                    same(S, "Matrix element access", &[got], &[n]);
                }
                self.pa(S, name, v, m);
                name
            }
            30 => {
                let name = "Matrix::uninit/assume_init";
                let m = fresh(M * N);
                let mut u = Matrix::<Tok, M, N>::uninit();
                for i in 0..M {
                    for j in 0..N {
                        u[(i, j)] = MaybeUninit::new(Tok::new(m[i * N + j]));
                    }
                }
                let v = unsafe { u.assume_init() };
                self.pa(S, name, v, m);
                name
            }
            31 => {
                let name = "Matrix::indices";
                let v = Matrix::<(usize, usize), M, N>::indices();
                let mut got = vec![];
                let mut want = vec![];
                for i in 0..M {
                    for j in 0..N {
                        got.push(v[(i, j)].0 as u64);
                        got.push(v[(i, j)].1 as u64);
                        want.push(i as u64);
                        want.push(j as u64);
                    }
                }
                same(S, name, &got, &want);
                name
            }
            32 => {
                let name = "drop Matrix";
                let (v, _) = self.ta();
                let _ = exec(name, C01, ALL_SEAMS, move || drop(v));
                name
            }
            33 => {
                let name = "Matrix::into_iter";
                let (v, m) = self.ta();
                let mut kept = Vec::with_capacity(M * N);
                let r = exec(name, S, ALL_SEAMS, || for t in v {
                    kept.push(t);
                    seam(Seam::Body, 0);
                });
                let got: Vec<u64> = kept.iter().map(Tok::get).collect();
                same(S, name, &got, if r.is_ok() { &m } else { &m[..got.len().min(M * N)] });
                name
            }
            34 => {
                let (v, m) = self.ta();
                let (w, n) = self.ta();
                let o = pick(3);
                let name = ["Matrix::div_floor", "Matrix::mod_floor", "Matrix::div_mod_floor"][o];
                let r = exec(name, VAL, ALL_SEAMS, || match o {
                    0 => (v.div_floor(w), None),
                    1 => (v.mod_floor(w), None),
                    _ => {
                        let (a, b) = v.div_mod_floor(w);
                        (a, Some(b))
                    }
                });
                if let Ok((a, b)) = r {
                    let d = zipm(&m, &n, |a, b| if b == 0 { None } else { Some(a / b) });
                    let q = zipm(&m, &n, |a, b| if b == 0 { None } else { Some(a % b) });
                    self.opt_a(VAL, name, Ok(a), if o == 1 { q.clone() } else { d });
                    if let Some(b) = b {
                        self.opt_a(VAL, name, Ok(b), q);
                    }
                }
                name
            }
            _ => {
                let name = "Vector from row";
                // take a row out of a matrix into the vector pool
                let (v, m) = self.ta();
                if M > 0 {
                    let i = pick(M);
                    let rows = v.into_array_of_vectors();
                    for (r, row) in rows.into_iter().enumerate() {
                        if r == i {
                            self.pv(S, name, row, m[i * N..(i + 1) * N].to_vec());
                        } else {
                            let _ = exec("drop", C01, ALL_SEAMS, move || drop(row));
                        }
                    }
                }
                name
            }
        }
    }
}

/// Tuples, named accessors, complex / quaternion / Moebius / transform wrappers of fixed shapes.
fn fixed_shapes() -> &'static str {
    use vecmat::complex::Moebius;
    use vecmat::transform::{Chain, Rotation2, Rotation3, Scale};
    let name = "fixed shapes";
    let m = fresh(16);
    let t = |i: usize| Tok::new(m[i]);
    match pick(14) {
        0 => {
            let v: Vector<Tok, 2> = if chance(1, 2) { Vector::<Tok, 2>::from_tuple((t(0), t(1))) } else { (t(0), t(1)).into() };
            same(S, "Vector2 from tuple", &vread(&v), &m[..2]);
            same(S, "Vector2 xy refs", &[v.x_ref().get(), v.y_ref().get()], &m[..2]);
            let mut v = v;
            let n = uniq();
            let i = pick(2);
            *(if i == 0 { v.x_mut() } else { v.y_mut() }) = Tok::new(n);
            let mut m = m[..2].to_vec();
            m[i] = n;
            let (a, b) = if chance(1, 2) { v.into_tuple() } else { v.into() };
            same(S, "Vector2 into tuple", &[a.get(), b.get()], &m);
        }
        1 => {
            let v: Vector<Tok, 3> = if chance(1, 2) { Vector::<Tok, 3>::from_tuple((t(0), t(1), t(2))) } else { (t(0), t(1), t(2)).into() };
            same(S, "Vector3 from tuple", &vread(&v), &m[..3]);
            same(S, "Vector3 xyz refs", &[v.x_ref().get(), v.y_ref().get(), v.z_ref().get()], &m[..3]);
            let mut v = v;
            let n = uniq();
            let i = pick(3);
            *(match i { 0 => v.x_mut(), 1 => v.y_mut(), _ => v.z_mut() }) = Tok::new(n);
            let mut m = m[..3].to_vec();
            m[i] = n;
            let (a, b, c) = if chance(1, 2) { v.into_tuple() } else { v.into() };
            same(S, "Vector3 into tuple", &[a.get(), b.get(), c.get()], &m);
        }
        2 => {
            let v: Vector<Tok, 4> = if chance(1, 2) { Vector::<Tok, 4>::from_tuple((t(0), t(1), t(2), t(3))) } else { (t(0), t(1), t(2), t(3)).into() };
            same(S, "Vector4 from tuple", &vread(&v), &m[..4]);
            same(S, "Vector4 xyzw refs", &[v.x_ref().get(), v.y_ref().get(), v.z_ref().get(), v.w_ref().get()], &m[..4]);
            let mut v = v;
            let n = uniq();
            let i = pick(4);
            *(match i { 0 => v.x_mut(), 1 => v.y_mut(), 2 => v.z_mut(), _ => v.w_mut() }) = Tok::new(n);
            let mut m = m[..4].to_vec();
            m[i] = n;
            let (a, b, c, d) = if chance(1, 2) { v.into_tuple() } else { v.into() };
            same(S, "Vector4 into tuple", &[a.get(), b.get(), c.get(), d.get()], &m);
        }
        3 | 4 => {
            let c: Complex<Tok> = match pick(9) {
                7 => (t(0), t(1)).into(),
                8 => Vector::<Tok, 2>::from([t(0), t(1)]).into(),
                0 => Complex::new(t(0), t(1)),
                1 => Complex::from_vector([t(0), t(1)].into()),
                2 => Complex::from_array([t(0), t(1)]),
                3 => Complex::from_tuple((t(0), t(1))),
                4 => Complex::from_num(num_complex::Complex { re: t(0), im: t(1) }),
                5 => [t(0), t(1)].into(),
                _ => num_complex::Complex { re: t(0), im: t(1) }.into(),
            };
            same(S, "Complex parts", &[c.re_ref().get(), c.im_ref().get()], &m[..2]);
            let mut c = c;
            let n = uniq();
            let i = pick(2);
            *(if i == 0 { c.re_mut() } else { c.im_mut() }) = Tok::new(n);
            let mut m = m[..2].to_vec();
            m[i] = n;
            let r = exec("Complex::clone", S, ALL_SEAMS, || c.clone());
            if let Ok(d) = r {
                same(S, "Complex::clone", &[d.re_ref().get(), d.im_ref().get()], &m);
            }
            let got = match pick(8) {
                7 => { let a: Vector<Tok, 2> = c.into(); [a[0].get(), a[1].get()] }
                0 => { let a: [Tok; 2] = c.into_array(); [a[0].get(), a[1].get()] }
                1 => { let a = c.into_vector(); [a[0].get(), a[1].get()] }
                2 => { let a = c.into_tuple(); [a.0.get(), a.1.get()] }
                3 => { let a = c.into_num(); [a.re.get(), a.im.get()] }
                4 => { let a: (Tok, Tok) = c.into(); [a.0.get(), a.1.get()] }
                5 => { let a: [Tok; 2] = c.into(); [a[0].get(), a[1].get()] }
                _ => { let a: num_complex::Complex<Tok> = c.into(); [a.re.get(), a.im.get()] }
            };
            same(S, "Complex into parts", &got, &m);
        }
        5 | 6 => {
            let q: Quaternion<Tok> = match pick(9) {
                7 => [t(0), t(1), t(2), t(3)].into(),
                8 => Vector::<Tok, 4>::from([t(0), t(1), t(2), t(3)]).into(),
                0 => Quaternion::new(t(0), t(1), t(2), t(3)),
                1 => Quaternion::from_vector([t(0), t(1), t(2), t(3)].into()),
                2 => Quaternion::from_array([t(0), t(1), t(2), t(3)]),
                3 => Quaternion::from_tuple((t(0), t(1), t(2), t(3))),
                4 => Quaternion::from_scalar_and_vector3(t(0), [t(1), t(2), t(3)].into()),
                5 => (t(0), Vector::<Tok, 3>::from([t(1), t(2), t(3)])).into(),
                _ => (t(0), t(1), t(2), t(3)).into(),
            };
            same(S, "Quaternion parts", &[q.w_ref().get(), q.x_ref().get(), q.y_ref().get(), q.z_ref().get()], &m[..4]);
            let mut q = q;
            let n = uniq();
            let i = pick(4);
            *(match i { 0 => q.w_mut(), 1 => q.x_mut(), 2 => q.y_mut(), _ => q.z_mut() }) = Tok::new(n);
            let mut m = m[..4].to_vec();
            m[i] = n;
            let got = match pick(8) {
                6 => { let a: [Tok; 4] = q.into(); [a[0].get(), a[1].get(), a[2].get(), a[3].get()] }
                7 => { let a: Vector<Tok, 4> = q.into(); [a[0].get(), a[1].get(), a[2].get(), a[3].get()] }
                0 => { let a = q.into_array(); [a[0].get(), a[1].get(), a[2].get(), a[3].get()] }
                1 => { let a = q.into_vector(); [a[0].get(), a[1].get(), a[2].get(), a[3].get()] }
                2 => { let a = q.into_tuple(); [a.0.get(), a.1.get(), a.2.get(), a.3.get()] }
                3 => { let (w, v) = q.into_scalar_and_vector3(); [w.get(), v[0].get(), v[1].get(), v[2].get()] }
                4 => { let (w, v): (Tok, Vector<Tok, 3>) = q.into(); [w.get(), v[0].get(), v[1].get(), v[2].get()] }
                _ => { let a: (Tok, Tok, Tok, Tok) = q.into(); [a.0.get(), a.1.get(), a.2.get(), a.3.get()] }
            };
            same(S, "Quaternion into parts", &got, &m);
        }
        7 | 8 => {
            let o: Moebius<Tok> = match pick(6) {
                5 => Matrix::<Tok, 2, 2>::from([[t(0), t(1)], [t(2), t(3)]]).into(),
                0 => Moebius::new(t(0), t(1), t(2), t(3)),
                1 => Moebius::from_array([[t(0), t(1)], [t(2), t(3)]]),
                2 => Moebius::from_tuple((t(0), t(1), t(2), t(3))),
                3 => Moebius::from_matrix([[t(0), t(1)], [t(2), t(3)]].into()),
                _ => [[t(0), t(1)], [t(2), t(3)]].into(),
            };
            same(S, "Moebius parts", &[o.a_ref().get(), o.b_ref().get(), o.c_ref().get(), o.d_ref().get()], &m[..4]);
            let mut o = o;
            let n = uniq();
            let i = pick(4);
            match pick(5) {
                3 => { let w: &mut Matrix<Tok, 2, 2> = (&mut o).into(); w[(i / 2, i % 2)] = Tok::new(n) }
                4 => { let w: &mut [[Tok; 2]; 2] = (&mut o).into(); w[i / 2][i % 2] = Tok::new(n) }
                0 => *(match i { 0 => o.a_mut(), 1 => o.b_mut(), 2 => o.c_mut(), _ => o.d_mut() }) = Tok::new(n),
                1 => o.as_mut_matrix()[(i / 2, i % 2)] = Tok::new(n),
                _ => o.as_mut_array_of_arrays()[i / 2][i % 2] = Tok::new(n),
            }
            let mut m = m[..4].to_vec();
            m[i] = n;
            same(S, "Moebius matrix", &mread(o.as_matrix()), &m);
            let w: &Matrix<Tok, 2, 2> = (&o).into();
            same(S, "Moebius as matrix", &mread(w), &m);
            let w: &[[Tok; 2]; 2] = if chance(1, 2) { (&o).into() } else { o.as_array_of_arrays() };
            same(S, "Moebius as arrays", &w.iter().flatten().map(Tok::get).collect::<Vec<_>>(), &m);
            let got: Vec<u64> = match pick(5) {
                4 => { let a: [[Tok; 2]; 2] = o.into(); a.iter().flatten().map(Tok::get).collect() }
                0 => o.into_array().iter().flatten().map(Tok::get).collect(),
                1 => mread(&o.into_matrix()),
                2 => { let a = o.into_tuple(); vec![a.0.get(), a.1.get(), a.2.get(), a.3.get()] }
                _ => { let a: Matrix<Tok, 2, 2> = o.into(); mread(&a) }
            };
            same(S, "Moebius into parts", &got, &m);
        }
        9 => match pick(5) {
            0 => shift_parts::<1>(),
            1 => shift_parts::<2>(),
            2 => shift_parts::<4>(),
            3 => shift_parts::<6>(),
            _ => shift_parts::<3>(),
        },
        10 => match pick(4) {
            0 => linear_parts::<1>(),
            1 => linear_parts::<3>(),
            2 => linear_parts::<5>(),
            _ => linear_parts::<2>(),
        },
        11 => {
            let mut c: Chain<Tok, Tok, ()> = if chance(1, 2) { Chain::new(t(0), t(1)) } else { (t(0), t(1)).into() };
            same(S, "Chain parts", &[c.outer().get(), c.inner().get()], &m[..2]);
            let n = uniq();
            let i = pick(2);
            *(if i == 0 { c.outer_mut() } else { c.inner_mut() }) = Tok::new(n);
            let mut m = m[..2].to_vec();
            m[i] = n;
            let (a, b): (Tok, Tok) = if chance(1, 2) { c.split() } else { c.into() };
            same(S, "Chain split", &[a.get(), b.get()], &m);
        }
        12 => {
            let s: Scale<Tok> = if chance(1, 2) { Scale::from_mag(t(0)) } else { t(0).into() };
            same(S, "Scale parts", &[s.into_mag().get()], &m[..1]);
            let r = Rotation2::from_complex(Complex::new(t(1), t(2)));
            let c: Complex<Tok> = if chance(1, 2) { r.into_complex() } else { r.into() };
            same(S, "Rotation2 parts", &[c.re_ref().get(), c.im_ref().get()], &m[1..3]);
        }
        _ => {
            let r = Rotation3::from_quaternion(Quaternion::new(t(0), t(1), t(2), t(3)));
            let q: Quaternion<Tok> = if chance(1, 2) { r.into_quaternion() } else { r.into() };
            same(S, "Rotation3 parts", &[q.w_ref().get(), q.x_ref().get(), q.y_ref().get(), q.z_ref().get()], &m[..4]);
        }
    }
    name
}

/// Operations that need Copy elements.
fn copy_shapes<const M: usize, const N: usize>() -> &'static str {
    let name = "Copy shapes";
    let m = fresh(M * N);
    let vals: [[Fp; N]; M] = core::array::from_fn(|i| core::array::from_fn(|j| Fp(m[i * N + j])));
    let get = |a: &Matrix<Fp, M, N>| -> Vec<u64> { (0..M * N).map(|x| a[(x / N, x % N)].0).collect() };
    let a: Matrix<Fp, M, N> = match pick(4) {
        0 => (&vals).into(),
        1 => (&vals.map(Vector::<Fp, N>::from)).into(),
        2 => (&Vector::<Vector<Fp, N>, M>::from(vals.map(Vector::<Fp, N>::from))).into(),
        _ => vals.into(),
    };
    same(S, "Matrix from reference", &get(&a), &m);
    for i in 0..M {
        let r = a.row(i);
        let got: Vec<u64> = (0..N).map(|j| r[j].0).collect();
        same(S, "Matrix::row", &got, &m[i * N..(i + 1) * N]);
        let r2: Vector<Fp, N> = (&vals[i]).into();
        let got: Vec<u64> = (0..N).map(|j| r2[j].0).collect();
        same(S, "Vector from array reference", &got, &m[i * N..(i + 1) * N]);
    }
    for j in 0..N {
        let c = a.col(j);
        let got: Vec<u64> = (0..M).map(|i| c[i].0).collect();
        let want: Vec<u64> = (0..M).map(|i| m[i * N + j]).collect();
        same(S, "Matrix::col", &got, &want);
    }
    let x = uniq();
    let f = if chance(1, 2) { Matrix::<Fp, M, N>::fill(Fp(x)) } else { Matrix::fill_ref(&Fp(x)) };
    same(S, "Matrix::fill", &get(&f), &vec![x; M * N]);
    let f = Vector::<Fp, N>::fill(Fp(x));
    let got: Vec<u64> = (0..N).map(|j| f[j].0).collect();
    same(S, "Vector::fill", &got, &vec![x; N]);
    let q = fresh(4);
    let v = Vector::<Fp, 4>::from([Fp(q[0]), Fp(q[1]), Fp(q[2]), Fp(q[3])]);
    same(S, "Vector4 xyzw", &[v.x().0, v.y().0, v.z().0, v.w().0], &q);
    let v = Vector::<Fp, 3>::from([Fp(q[0]), Fp(q[1]), Fp(q[2])]);
    same(S, "Vector3 xyz", &[v.x().0, v.y().0, v.z().0], &q[..3]);
    let v = Vector::<Fp, 2>::from([Fp(q[0]), Fp(q[1])]);
    same(S, "Vector2 xy", &[v.x().0, v.y().0], &q[..2]);
    let c = Quaternion::new(Fp(q[0]), Fp(q[1]), Fp(q[2]), Fp(q[3]));
    same(S, "Quaternion wxyz", &[c.w().0, c.x().0, c.y().0, c.z().0], &q);
    let xyz = c.xyz();
    same(S, "Quaternion::xyz", &[xyz[0].0, xyz[1].0, xyz[2].0], &q[1..]);
    let c = Complex::new(Fp(q[0]), Fp(q[1]));
    same(S, "Complex re im", &[c.re().0, c.im().0], &q[..2]);
    let o = vecmat::complex::Moebius::new(Fp(q[0]), Fp(q[1]), Fp(q[2]), Fp(q[3]));
    same(S, "Moebius abcd", &[o.a().0, o.b().0, o.c().0, o.d().0], &q);
    name
}

/// An index outside of the dimensions reaches no element.
fn refused(name: &str, f: impl FnOnce() -> u64) {
    sim().ops += 1;
    trace(|| format!("op {} out of range", name));
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(x) => violation(S, format!("out-of-range:{}", name), format!("{} reached the element {} with an index outside of the dimensions", name, x)),
        Err(_) => sim().foreign_msg = None,
    }
}
fn out_of_range<const M: usize, const N: usize>() -> &'static str {
    let name = "index out of range";
    let beyond = |n: usize| match pick(4) {
        0 | 1 => n,
        2 => n + 1 + pick(3),
        _ => usize::MAX - pick(2),
    };
    let m = fresh(M * N);
    let mut a: Matrix<Fp, M, N> = core::array::from_fn::<[Fp; N], M, _>(|i| core::array::from_fn(|j| Fp(m[i * N + j]))).into();
    let mut v: Vector<Fp, M> = core::array::from_fn::<Fp, M, _>(|i| Fp(i as u64)).into();
    match pick(7) {
        0 => {
            let i = beyond(M);
            refused("Vector index", || v[i].0);
        }
        1 => {
            let i = beyond(M);
            refused("Vector index", || { v[i] = Fp(1); 1 });
        }
        2 => {
            let (i, j) = (pick(M.max(1)), beyond(N));
            refused("Matrix index", || a[(i, j)].0);
        }
        3 => {
            let (i, j) = (beyond(M), pick(N.max(1)));
            refused("Matrix index", || a[(i, j)].0);
        }
        4 => {
            let (i, j) = if chance(1, 2) { (beyond(M), pick(N.max(1))) } else { (pick(M.max(1)), beyond(N)) };
            refused("Matrix index", || { a[(i, j)] = Fp(1); 1 });
        }
        5 => {
            let i = beyond(M);
            match pick(3) {
                0 => refused("Matrix::row", || { let r = a.row(i); if N > 0 { r[0].0 } else { 0 } }),
                1 => refused("Matrix::row_ref", || { let r = a.row_ref(i); if N > 0 { r[0].0 } else { 0 } }),
                _ => refused("Matrix::row_mut", || { let r = a.row_mut(i); if N > 0 { r[0].0 } else { 0 } }),
            }
        }
        _ => {
            let j = beyond(N);
            if M > 0 {
                refused("Matrix::col", || a.col(j)[0].0);
            }
        }
    }
    let got: Vec<u64> = (0..M * N).map(|x| a[(x / N, x % N)].0).collect();
    same(S, "Matrix after a refused index", &got, &m);
    let got: Vec<u64> = (0..M).map(|i| v[i].0).collect();
    same(S, "Vector after a refused index", &got, &(0..M as u64).collect::<Vec<_>>());
    name
}

/// Zero-sized elements: only their number can be observed.
fn zst_ops<const M: usize, const N: usize>() -> &'static str {
    let name = "zero-sized elements";
    let before = sim().ledger.zst_live;
    let k = pick(7);
    let r = exec(name, S, ALL_SEAMS, || match k {
        0 => {
            let v = Vector::<Zst, N>::default();
            v.into_iter().count()
        }
        1 => {
            let v = Vector::<Zst, N>::default();
            let w = v.clone();
            let (a, b) = v.zip(w).unzip();
            a.into_iter().count() + b.into_iter().count() - N
        }
        2 => {
            let v = Matrix::<Zst, M, N>::default().transpose();
            let n = v.into_iter().count();
            if N == 0 { 0 } else { n / M.max(1) }
        }
        3 => {
            let v = Vector::<Zst, N>::default().map(|z| { seam(Seam::Closure, 0); z });
            drop(v);
            N
        }
        4 => {
            let mut it = Vector::<Zst, N>::default().into_iter();
            let x = it.next();
            let n = b2u(x.is_some()) as usize;
            drop(it);
            drop(x);
            if n == (N > 0) as usize { N } else { usize::MAX }
        }
        5 => {
            let mut src = (0..N).map(|_| { seam(Seam::Pull, 0); Zst::new() });
            let v = Vector::<Zst, N>::try_from_iter(&mut src);
            v.map_or(usize::MAX, |v| v.into_iter().count())
        }
        _ => {
            let mut src = (1..N).map(|_| { seam(Seam::Pull, 0); Zst::new() });
            let v = Vector::<Zst, N>::try_from_iter(&mut src);
            if v.is_none() == (N > 0) { N } else { usize::MAX }
        }
    });
    if let Ok(n) = r {
        let want = if k == 2 && M == 0 { 0 } else { N };
        same(S, name, &[n as u64], &[want as u64]);
    }
    let after = sim().ledger.zst_live;
    if sim().drop_fault && after > before && k != 6 {
        // see compiler_leak
        sim().ledger.zst_live = before;
    } else if after != before {
        violation(C01, format!("leaked:{}", name), format!("zero-sized element balance {} after variant {}", after - before, k));
        sim().ledger.zst_live = before;
    }
    name
}

fn run<const M: usize, const N: usize>() {
    trace(|| format!("history over {}x{} matrices and {}-vectors", M, N, N));
    if M * N == 0 {
        extra(X::ZeroDim);
    }
    let mut h = H::<M, N> { v: vec![], a: vec![], base: 0 };
    let steps = 1 + pick(24);
    for _ in 0..steps {
        let name = h.step();
        h.balance(name);
        while h.v.len() > 6 {
            h.v.remove(0);
        }
        while h.a.len() > 6 {
            h.a.remove(0);
        }
        if !sim().viol.is_empty() {
            break;
        }
    }
    drop(h.v);
    drop(h.a);
    let l = live() - h.base;
    if l != 0 {
        violation(C01, "leaked:end", format!("{} elements alive after everything was dropped", l));
    }
}

/// Dimensions beyond what a byte can count: a history over fewer operations.
fn big<const M: usize, const N: usize>() {
    trace(|| format!("long containers: {}x{} and {}", M, N, N));
    for _ in 0..1 + pick(3) {
        let name = big_op::<M, N>();
        let (l, e) = (live(), sim().lost);
        if l != e && !compiler_leak(l, e) {
            violation(C01, format!("leaked:{}", name), format!("{} elements alive after {} and its results were dropped", l, name));
        }
        if !sim().viol.is_empty() {
            break;
        }
    }
}

fn big_op<const M: usize, const N: usize>() -> &'static str {
    let vec = |m: &[u64]| -> Vector<Tok, N> { Vector::from_array(arr(m)) };
    let mat = |m: &[u64]| -> Matrix<Tok, M, N> { Matrix::from_array_of_arrays(arr2(m)) };
    match pick(16) {
        0 => {
            let name = "Vector::indices";
            let v = Vector::<usize, N>::indices();
            same(S, name, &(0..N).map(|i| v[i] as u64).collect::<Vec<_>>(), &(0..N as u64).collect::<Vec<_>>());
            let v = Matrix::<(usize, usize), M, N>::indices();
            let got: Vec<u64> = (0..M * N).map(|x| { let p = v[(x / N, x % N)]; (p.0 * N + p.1) as u64 }).collect();
            same(S, "Matrix::indices", &got, &(0..(M * N) as u64).collect::<Vec<_>>());
            name
        }
        1 => {
            let name = "Vector::enumerate";
            let m = fresh(N);
            let v = vec(&m);
            if let Ok(v) = exec(name, S, ALL_SEAMS, || v.enumerate()) {
                let got: Vec<u64> = (0..N).flat_map(|i| [v[i].0 as u64, v[i].1.get()]).collect();
                same(S, name, &got, &(0..N).flat_map(|i| [i as u64, m[i]]).collect::<Vec<_>>());
            }
            name
        }
        2 => {
            let name = "Matrix rows";
            let m = fresh(M * N);
            let v = mat(&m);
            if let Ok(v) = exec(name, S, ALL_SEAMS, || v.into_vector_of_vectors().enumerate()) {
                let got: Vec<u64> = (0..M).flat_map(|i| core::iter::once(v[i].0 as u64).chain(vread(&v[i].1))).collect();
                same(S, name, &got, &(0..M).flat_map(|i| core::iter::once(i as u64).chain(m[i * N..(i + 1) * N].iter().copied())).collect::<Vec<_>>());
            }
            name
        }
        3 => {
            let name = "Vector::map";
            let m = fresh(N);
            let v = vec(&m);
            calls_clear();
            let r = exec(name, S, ALL_SEAMS, || v.map(|t| { call(t.get()); seam(Seam::Closure, t.get()); t }));
            check_calls(S, name, &r, &m);
            if let Ok(v) = r {
                same(S, name, &vread(&v), &m);
            }
            name
        }
        4 => {
            let name = "Matrix::map";
            let m = fresh(M * N);
            let v = mat(&m);
            calls_clear();
            let r = exec(name, S, ALL_SEAMS, || v.map(|t| { call(t.get()); seam(Seam::Closure, t.get()); t }));
            check_calls(S, name, &r, &m);
            if let Ok(v) = r {
                same(S, name, &mread(&v), &m);
            }
            name
        }
        5 => {
            let name = "Matrix::transpose";
            let m = fresh(M * N);
            let v = mat(&m);
            if let Ok(v) = exec(name, S, ALL_SEAMS, || v.transpose()) {
                same(S, name, &mread(&v), &tr(&m, M, N));
            }
            name
        }
        6 => {
            let name = "Vector::zip/unzip";
            let (m, n) = (fresh(N), fresh(N));
            let (v, w) = (vec(&m), vec(&n));
            if let Ok((v, w)) = exec(name, S, ALL_SEAMS, || v.zip(w).unzip()) {
                same(S, name, &vread(&v), &m);
                same(S, name, &vread(&w), &n);
            }
            name
        }
        7 => {
            let name = "Matrix::zip/unzip";
            let (m, n) = (fresh(M * N), fresh(M * N));
            let (v, w) = (mat(&m), mat(&n));
            if let Ok((v, w)) = exec(name, S, ALL_SEAMS, || v.zip(w).unzip()) {
                same(S, name, &mread(&v), &m);
                same(S, name, &mread(&w), &n);
            }
            name
        }
        8 => {
            let name = "Vector::try_from_iter";
            let m = fresh(N + 2);
            let mut src = m.iter().map(|x| { seam(Seam::Pull, *x); Tok::new(*x) });
            let r = exec(name, C03, ALL_SEAMS, || Vector::<Tok, N>::try_from_iter(&mut src));
            if let Ok(v) = r {
                same(C03 | S, name, &v.as_ref().map_or(vec![], vread), &m[..N]);
                same(C03, "items left in the source", &[src.count() as u64], &[2]);
            }
            name
        }
        9 => {
            let name = "Matrix::try_from_iter";
            let m = fresh(M * N + 2);
            let mut src = m.iter().map(|x| { seam(Seam::Pull, *x); Tok::new(*x) });
            let r = exec(name, C03, ALL_SEAMS, || Matrix::<Tok, M, N>::try_from_iter(&mut src));
            if let Ok(v) = r {
                same(C03 | S, name, &v.as_ref().map_or(vec![], mread), &m[..M * N]);
                same(C03, "items left in the source", &[src.count() as u64], &[2]);
            }
            name
        }
        10 => {
            let name = "Vector::init";
            let m = fresh(M * N);
            let mut i = 0;
            let r = exec(name, S, ALL_SEAMS, || Matrix::<Tok, M, N>::init(|| {
                seam(Seam::Closure, i as u64);
                i += 1;
                Tok::new(m.get(i - 1).copied().unwrap_or(0))
            }));
            if let Ok(v) = r {
                same(S, name, &mread(&v), &m);
            }
            name
        }
        11 => {
            let name = "Vector::scan/fold";
            let m = fresh(N);
            let v = vec(&m);
            let r = exec(name, S, ALL_SEAMS, || v.scan(7u64, |s, t| { seam(Seam::Closure, t.get()); *s = s.wrapping_mul(31) ^ t.get(); (*s, t) }));
            if let Ok(v) = r {
                let mut s = 7u64;
                let want: Vec<u64> = m.iter().flat_map(|x| { s = s.wrapping_mul(31) ^ x; [s, *x] }).collect();
                let got: Vec<u64> = (0..N).flat_map(|i| [v[i].0, v[i].1.get()]).collect();
                same(S, name, &got, &want);
                let r = exec(name, S, ALL_SEAMS, || v.fold(7u64, |s, t| { seam(Seam::Closure, t.1.get()); s.wrapping_mul(31) ^ t.1.get() }));
                if let Ok(x) = r {
                    same(S, name, &[x], &[s]);
                }
            }
            name
        }
        12 => {
            let name = "Vector::fold_first";
            let m = fresh(N);
            let v = vec(&m);
            calls_clear();
            let r = exec(name, S, ALL_SEAMS, || v.fold_first(|s, t| {
                call(t.get());
                seam(Seam::Closure, t.get());
                Tok::new(addm(mulm(s.get(), 31), t.get()))
            }));
            check_calls(S, name, &r, &m[1..]);
            if let Ok(t) = r {
                same(S, name, &[t.get()], &[m[1..].iter().fold(m[0], |s, x| addm(mulm(s, 31), *x))]);
            }
            name
        }
        13 => {
            let name = "Matrix::fold_first";
            let m = fresh(M * N);
            let v = mat(&m);
            calls_clear();
            let r = exec(name, S, ALL_SEAMS, || v.fold_first(|s, t| {
                call(t.get());
                seam(Seam::Closure, t.get());
                Tok::new(addm(mulm(s.get(), 31), t.get()))
            }));
            check_calls(S, name, &r, &m[1..]);
            if let Ok(t) = r {
                same(S, name, &[t.get()], &[m[1..].iter().fold(m[0], |s, x| addm(mulm(s, 31), *x))]);
            }
            name
        }
        14 => {
            let name = "Matrix::scan/fold";
            let m = fresh(M * N);
            let v = mat(&m);
            let r = exec(name, S, ALL_SEAMS, || v.scan(7u64, |s, t| { seam(Seam::Closure, t.get()); *s = s.wrapping_mul(31) ^ t.get(); (*s, t) }));
            if let Ok(v) = r {
                let mut s = 7u64;
                let want: Vec<u64> = m.iter().flat_map(|x| { s = s.wrapping_mul(31) ^ x; [s, *x] }).collect();
                let got: Vec<u64> = (0..M * N).flat_map(|i| { let x = &v[(i / N, i % N)]; [x.0, x.1.get()] }).collect();
                same(S, name, &got, &want);
                let r = exec(name, S, ALL_SEAMS, || v.fold(7u64, |s, t| { seam(Seam::Closure, t.1.get()); s.wrapping_mul(31) ^ t.1.get() }));
                if let Ok(x) = r {
                    same(S, name, &[x], &[s]);
                }
            }
            name
        }
        _ => {
            let name = "Matrix iteration";
            let m = fresh(M * N);
            let mut v = mat(&m);
            same(S | C04, name, &v.iter().map(Tok::get).collect::<Vec<_>>(), &m);
            same(S | C04, name, &v.iter_mut().map(|t| t.get()).collect::<Vec<_>>(), &m);
            let mut got = vec![];
            let r = exec(name, C04, ALL_SEAMS, || for t in v { seam(Seam::Closure, t.get()); got.push(t.get()) });
            if r.is_ok() {
                same(S | C04, name, &got, &m);
            } else if !m.starts_with(&got) {
                violation(S | C04, format!("prefix:{}", name), format!("an abandoned loop saw {:?} of {:?}", got, m));
            }
            name
        }
    }
}

fn long() {
    match pick(4) {
        0 => big::<1, 300>(),
        1 => big::<270, 1>(),
        2 => big::<3, 130>(),
        _ => big::<24, 17>(),
    }
}

pub fn machine() {
    uniq_reset();
    swarm();
    match pick(18) {
        0 if chance(1, 8) => run::<2, 8>(),
        2 if chance(1, 8) => run::<8, 4>(),
        5 if chance(1, 8) => long(),
        11 if chance(1, 8) => long(),
        10 if chance(1, 4) => run::<3, 4>(),
        0 => run::<2, 3>(),
        1 => run::<1, 1>(),
        2 => run::<3, 2>(),
        3 => run::<2, 2>(),
        4 => run::<3, 3>(),
        5 => run::<1, 4>(),
        6 => run::<4, 1>(),
        7 => run::<0, 0>(),
        8 => run::<0, 3>(),
        9 => run::<3, 0>(),
        10 => run::<4, 4>(),
        11 => run::<2, 5>(),
        12 => run::<6, 6>(),
        13 => run::<2, 17>(),
        14 => run::<9, 2>(),
        15 => run::<7, 11>(),
        16 => run::<5, 7>(),
        _ => run::<5, 3>(),
    }
}

use vecmat::transform::{Linear, Shift};
fn shift_parts<const N: usize>() {
    let m = fresh(N);
    let v: Vector<Tok, N> = arr(&m).into();
    let s: Shift<Tok, N> = if chance(1, 2) { Shift::from_vector(v) } else { v.into() };
    let v: Vector<Tok, N> = if chance(1, 2) { s.into_vector() } else { s.into() };
    same(S, "Shift parts", &vread(&v), &m);
}
fn linear_parts<const N: usize>() {
    let m = fresh(N * N);
    let a: Matrix<Tok, N, N> = arr2(&m).into();
    let s: Linear<Tok, N> = if chance(1, 2) { Linear::from_matrix(a) } else { a.into() };
    let v: Matrix<Tok, N, N> = if chance(1, 2) { s.into_matrix() } else { s.into() };
    same(S, "Linear parts", &mread(&v), &m);
}
