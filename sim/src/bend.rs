//! Transformations of the caller's own inside chains, with derivatives that depend on the position, and histories of
//! float transformations against matrices with error bounds (C08).

use crate::conc::*;
use crate::elems::*;
use crate::sim::*;
use crate::transf::{angle, fmul, good, nrm, unit};
use num_traits::Num;
use std::ops::Neg;
use vecmat::traits::Normalize;
use vecmat::transform::{Chain, Directional, Linear, Reorder, Rotation2, Rotation3, Scale, Shift};
use vecmat::{Transform, Vector};

const S: u32 = C08;
const D: usize = 3;
const MAX: usize = 24;

// ---------------------------------------------------------------- shears x_i += k x_j^2

#[derive(Clone, Copy, Debug)]
struct Step<T> {
    i: usize,
    j: usize,
    k: T,
}
/// A composition of shears, the first one applied first.
#[derive(Clone, Copy, Debug)]
pub struct Bend<T> {
    steps: [Option<Step<T>>; MAX],
    n: usize,
    /// How it trades places with another one.
    style: u8,
}
pub trait Sc: Num + Neg<Output = Self> + Copy {}
impl<T: Num + Neg<Output = T> + Copy> Sc for T {}
type V<T> = Vector<T, D>;

impl<T: Sc> Bend<T> {
    fn empty() -> Self {
        Bend { steps: [None; MAX], n: 0, style: 0 }
    }
    fn push(&mut self, s: Step<T>) {
        assert!(self.n < MAX);
        self.steps[self.n] = Some(s);
        self.n += 1;
    }
    fn iter(&self) -> impl DoubleEndedIterator<Item = Step<T>> + '_ {
        self.steps[..self.n].iter().map(|s| s.unwrap())
    }
    fn parts(&self) -> Vec<(usize, usize, T)> {
        self.iter().map(|s| (s.i, s.j, s.k)).collect()
    }
}
impl<T: Sc> Transform<V<T>> for Bend<T> {
    fn identity() -> Self {
        Bend::empty()
    }
    fn inv(self) -> Self {
        let mut r = Bend::empty();
        r.style = self.style;
        for s in self.iter().rev() {
            r.push(Step { k: -s.k, ..s });
        }
        r
    }
    fn apply(&self, mut x: V<T>) -> V<T> {
        for s in self.iter() {
            x[s.i] = x[s.i] + s.k * x[s.j] * x[s.j];
        }
        x
    }
    fn deriv(&self, mut x: V<T>, mut d: V<T>) -> V<T> {
        for s in self.iter() {
            let t = s.k * x[s.j];
            d[s.i] = d[s.i] + (t + t) * d[s.j];
            x[s.i] = x[s.i] + t * x[s.j];
        }
        d
    }
    fn chain(self, other: Self) -> Self {
        let mut r = other;
        r.style = self.style;
        for s in self.iter() {
            r.push(s);
        }
        r
    }
}
/// A B = B' A' holds for B' = A, A' = B, for B' = A B, A' = 1 and for B' = 1, A' = A B.
impl<T: Sc> Reorder<Bend<T>, V<T>> for Bend<T> {
    fn reorder(self, other: Self) -> (Self, Self) {
        let mut one = Bend::empty();
        one.style = self.style;
        match self.style {
            0 => (self, other),
            1 => (self.chain(other), one),
            _ => (one, self.chain(other)),
        }
    }
}
impl Directional<V<Fl>> for Bend<Fl> {
    fn apply_dir(&self, x: V<Fl>, d: V<Fl>) -> V<Fl> {
        Normalize::normalize(self.deriv(x, d))
    }
    fn apply_normal(&self, mut x: V<Fl>, mut n: V<Fl>) -> V<Fl> {
        for s in self.iter() {
            let t = s.k * x[s.j];
            n[s.j] = n[s.j] - (t + t) * n[s.i];
            x[s.i] = x[s.i] + t * x[s.j];
        }
        Normalize::normalize(n)
    }
}

// ---------------------------------------------------------------- the model

type M = Vec<(usize, usize, u64)>;
fn mapply(m: &M, x: &[u64]) -> Vec<u64> {
    let mut x = x.to_vec();
    for (i, j, k) in m {
        x[*i] = addm(x[*i], mulm(*k, mulm(x[*j], x[*j])));
    }
    x
}
fn mderiv(m: &M, x: &[u64], d: &[u64]) -> Vec<u64> {
    let (mut x, mut d) = (x.to_vec(), d.to_vec());
    for (i, j, k) in m {
        d[*i] = addm(d[*i], mulm(mulm(2, *k), mulm(x[*j], d[*j])));
        x[*i] = addm(x[*i], mulm(*k, mulm(x[*j], x[*j])));
    }
    d
}
fn minv(m: &M) -> M {
    m.iter().rev().map(|(i, j, k)| (*i, *j, negm(*k))).collect()
}
fn places() -> (usize, usize) {
    let i = pick(D);
    (i, (i + 1 + pick(D - 1)) % D)
}
type Ch = Chain<Bend<Fp>, Bend<Fp>, V<Fp>>;
fn bend() -> Bend<Fp> {
    let mut b = Bend::empty();
    b.style = pick(3) as u8;
    for _ in 0..1 + pick(2) {
        let (i, j) = places();
        b.push(Step { i, j, k: Fp(arg()) });
    }
    trace(|| format!("bend {:?} style {}", b.parts().iter().map(|(i, j, k)| (*i, *j, k.0)).collect::<Vec<_>>(), b.style));
    b
}
fn list(c: &Ch) -> M {
    c.inner().iter().chain(c.outer().iter()).map(|s| (s.i, s.j, s.k.0)).collect()
}
/// Chains of the caller's own transformations over the exact scalar.
pub fn exact() {
    let mut cs: Vec<(Ch, M)> = vec![];
    for _ in 0..2 {
        let c: Ch = Chain::new(bend(), bend());
        cs.push((c, list(&c)));
    }
    for _ in 0..2 + pick(5) {
        let (c, m) = cs[pick(cs.len())].clone();
        let x = ints(D);
        let xv = v::<D>(&x);
        match pick(8) {
            0 => run("custom chain apply", S, Some(mapply(&m, &x)), || vo(c.apply(xv))),
            1 | 2 => {
                let d = ints(D);
                let dv = v::<D>(&d);
                run("custom chain deriv", S, Some(mderiv(&m, &x, &d)), || vo(c.deriv(xv, dv)));
            }
            3 | 4 => {
                let (o, om) = cs[pick(cs.len())].clone();
                if m.len() + om.len() > 10 {
                    continue;
                }
                let w: M = [om, m].concat();
                if let Some(r) = run_get("custom chain chain", S, Some(mapply(&w, &x)), || c.chain(o), |r| mapply(&list(r), &x)) {
                    cs.push((r, w));
                }
            }
            5 => {
                let w = minv(&m);
                if let Some(r) = run_get("custom chain inv", S, Some(mapply(&w, &x)), || c.inv(), |r| mapply(&list(r), &x)) {
                    cs.push((r, w));
                }
            }
            6 => {
                run("custom chain and its inverse", S, Some([x.clone(), x.clone()].concat()), || {
                    let mut r = vo(c.inv().apply(c.apply(xv)));
                    r.extend(vo(c.apply(c.inv().apply(xv))));
                    r
                });
            }
            _ => {
                if let Some(r) = run_get("custom chain identity", S, Some(x.clone()), || <Ch as Transform<V<Fp>>>::identity(), |r| mapply(&list(r), &x)) {
                    cs.push((r, vec![]));
                }
            }
        }
        if cs.iter().any(|(c, m)| mapply(&list(c), &x) != mapply(m, &x)) {
            violation(S, "operand:custom chain", "a chain of custom transformations has changed".to_string());
        }
        if !sim().viol.is_empty() {
            return;
        }
        if cs.len() > 6 {
            cs.remove(0);
        }
    }
}
/// Directions and normals through a chain of the caller's own transformations.
pub fn floats() {
    let mk = || {
        let mut b: Bend<Fl> = Bend::empty();
        for _ in 0..1 + pick(2) {
            let (i, j) = places();
            b.push(Step { i, j, k: Fl(farg() / 8.0) });
        }
        b
    };
    let (a, b) = (mk(), mk());
    let all: Vec<(usize, usize, f64)> = b.iter().chain(a.iter()).map(|s| (s.i, s.j, s.k.0)).collect();
    trace(|| format!("shears {:?}", all));
    let x: Vec<f64> = flts(D).iter().map(|x| x / 8.0).collect();
    let d = unit::<D>();
    let c: Chain<Bend<Fl>, Bend<Fl>, V<Fl>> = Chain::new(a, b);
    let (xv, dv) = (vf::<D>(&x), vf::<D>(&d));
    let (mut p, mut t, mut n) = (x.clone(), d.to_vec(), d.to_vec());
    for (i, j, k) in &all {
        t[*i] += 2.0 * k * p[*j] * t[*j];
        n[*j] -= 2.0 * k * p[*j] * n[*i];
        p[*i] += k * p[*j] * p[*j];
    }
    // cancellation in a long history is no matter of the library
    let size = |a: &[f64]| a.iter().map(|x| x * x).sum::<f64>().sqrt();
    let fine = size(&t) > 0.05 && size(&n) > 0.05;
    let want = if fine { [p, nrm(t), nrm(n)].concat() } else { vec![f64::INFINITY] };
    runf("custom chain directions", S, want, 1e-7, false,
        || [vfo(c.apply(xv)), vfo(c.apply_dir(xv, dv)), vfo(c.apply_normal(xv, dv))].concat());
}

// ---------------------------------------------------------------- float histories

/// x -> A x + b with bounds (am, bm) of the terms that its elements are made of.
#[derive(Clone, Debug)]
struct FAff {
    n: usize,
    a: Vec<f64>,
    b: Vec<f64>,
    am: Vec<f64>,
    bm: Vec<f64>,
}
fn absv(a: &[f64]) -> Vec<f64> {
    a.iter().map(|x| x.abs()).collect()
}
fn plus(a: &[f64], b: &[f64]) -> Vec<f64> {
    a.iter().zip(b).map(|(a, b)| a + b).collect()
}
fn mat(n: usize, a: &[f64], b: &[f64]) -> Vec<f64> {
    (0..n * n).map(|k| (0..n).map(|j| a[k / n * n + j] * b[j * n + k % n]).sum()).collect()
}
impl FAff {
    fn id(n: usize) -> Self {
        let a: Vec<f64> = (0..n * n).map(|k| if k / n == k % n { 1.0 } else { 0.0 }).collect();
        FAff { n, am: a.clone(), a, b: vec![0.0; n], bm: vec![0.0; n] }
    }
    fn shift(b: &[f64]) -> Self {
        FAff { b: b.to_vec(), bm: absv(b), ..FAff::id(b.len()) }
    }
    fn lin(n: usize, a: Vec<f64>, am: Vec<f64>) -> Self {
        FAff { a, am, ..FAff::id(n) }
    }
    fn chain(&self, o: &FAff) -> FAff {
        FAff {
            n: self.n,
            a: mat(self.n, &self.a, &o.a),
            am: mat(self.n, &self.am, &o.am),
            b: plus(&fmul(&self.a, &o.b), &self.b),
            bm: plus(&fmul(&self.am, &o.bm), &self.bm),
        }
    }
    fn apply(&self, x: &[f64]) -> Vec<f64> {
        plus(&fmul(&self.a, x), &self.b)
    }
    fn bound(&self, x: &[f64]) -> Vec<f64> {
        plus(&fmul(&self.am, &absv(x)), &self.bm)
    }
}
pub trait FPart<const N: usize>: Directional<Vector<Fl, N>> + Reorder<Shift<Fl, N>, Vector<Fl, N>> + Copy
where
    Shift<Fl, N>: Reorder<Self, Vector<Fl, N>>,
{
    /// A part, its matrix and the inverse of that.
    fn make() -> (Self, Vec<f64>, Vec<f64>);
    /// Does it keep lengths?
    const RIGID: bool = false;
    /// Does it keep directions?
    const ROUND: bool = false;
}
fn transposed(n: usize, a: &[f64]) -> Vec<f64> {
    (0..n * n).map(|k| a[k % n * n + k / n]).collect()
}
impl<const N: usize> FPart<N> for Linear<Fl, N> {
    fn make() -> (Self, Vec<f64>, Vec<f64>) {
        let (mut a, mut it) = good::<N>();
        let k = factor();
        for x in a.iter_mut() {
            *x *= k
        }
        for x in it.iter_mut() {
            *x /= k
        }
        (Linear::from(mf(&a)), a, transposed(N, &it))
    }
}
fn factor() -> f64 {
    let k = match draw(4) {
        0 => 1.0,
        1 => 2f64.powi(draw(20) as i32 - 10),
        2 => 10f64.powf(draw(2000) as f64 / 100.0 - 10.0),
        _ => 0.5 + draw(1024) as f64 / 64.0,
    };
    trace(|| format!("factor {}", k));
    k
}
impl<const N: usize> FPart<N> for Scale<Fl> {
    const ROUND: bool = true;
    fn make() -> (Self, Vec<f64>, Vec<f64>) {
        let k = factor();
        let d = |k: f64| (0..N * N).map(|i| if i / N == i % N { k } else { 0.0 }).collect::<Vec<f64>>();
        (Scale::from(Fl(k)), d(k), d(1.0 / k))
    }
}
impl FPart<2> for Rotation2<Fl> {
    const RIGID: bool = true;
    fn make() -> (Self, Vec<f64>, Vec<f64>) {
        let t = angle();
        let a = vec![t.cos(), -t.sin(), t.sin(), t.cos()];
        let i = transposed(2, &a);
        (Rotation2::from_complex(vecmat::Complex::new(Fl(t.cos()), Fl(t.sin()))), a, i)
    }
}
impl FPart<3> for Rotation3<Fl> {
    const RIGID: bool = true;
    fn make() -> (Self, Vec<f64>, Vec<f64>) {
        let (t, u) = (angle(), unit::<3>());
        let cols: Vec<Vec<f64>> = (0..3).map(|k| crate::transf::rodrigues(u, t, core::array::from_fn(|i| if i == k { 1.0 } else { 0.0 }))).collect();
        let a: Vec<f64> = (0..9).map(|k| cols[k % 3][k / 3]).collect();
        let i = transposed(3, &a);
        let (s, c) = (t / 2.0).sin_cos();
        (Rotation3::from_quaternion(vecmat::Quaternion::new(Fl(c), Fl(s * u[0]), Fl(s * u[1]), Fl(s * u[2]))), a, i)
    }
}
/// A map and its inverse: the terms of one come through the other.
fn both(mut m: FAff, mut w: FAff) -> (FAff, FAff) {
    let (mb, wb) = (fmul(&m.am, &w.bm), fmul(&w.am, &m.bm));
    m.bm = plus(&m.bm, &mb);
    w.bm = plus(&w.bm, &wb);
    (m, w)
}
pub fn float_family<P: FPart<N>, const N: usize>(kind: &str)
where
    Shift<Fl, N>: Reorder<P, Vector<Fl, N>>,
{
    type Fc<P, const N: usize> = Chain<Shift<Fl, N>, P, Vector<Fl, N>>;
    // a chain, what it means and what its inverse means
    let mut cs: Vec<(Fc<P, N>, FAff, FAff)> = vec![];
    for _ in 0..2 {
        let (p, a, i) = P::make();
        let k = factor();
        let b: Vec<f64> = flts(N).iter().map(|x| x * k).collect();
        let s = FAff::shift(&b);
        // the terms of a rotation by a quaternion and of a matrix inverse are larger than their sums
        let wide = |a: &[f64]| {
            let top = a.iter().fold(0.0, |s: f64, x| s.max(x.abs()));
            vec![4.0 * top; N * N]
        };
        let (pm, im) = if P::ROUND {
            (FAff::lin(N, a.clone(), absv(&a)), FAff::lin(N, i.clone(), absv(&i)))
        } else {
            (FAff::lin(N, a.clone(), wide(&a)), FAff::lin(N, i.clone(), wide(&i)))
        };
        let m = s.chain(&pm);
        let w = im.chain(&FAff::shift(&b.iter().map(|x| -x).collect::<Vec<f64>>()));
        let (m, w) = both(m, w);
        cs.push((Chain::new(Shift::from(vf(&b)), p), m, w));
    }
    let nm = |x: &str| format!("{} {}", kind, x);
    // 0 where equal up to rounding, by terms
    let judge = |got: &[f64], want: &[f64], bound: &[f64]| -> Vec<f64> {
        (0..want.len()).map(|i| {
            let e = (got[i] - want[i]).abs();
            if e <= 1e-12 * bound[i] || e < 1e-200 { 0.0 } else { e }
        }).collect()
    };
    for _ in 0..2 + pick(5) {
        let ci = pick(cs.len());
        let (c, m, w) = cs[ci].clone();
        let x = flts(N);
        let (want, bound) = (m.apply(&x), m.bound(&x));
        if bound.iter().chain(&w.am).chain(&w.bm).any(|x| !(x.abs() < 1e60)) {
            cs.remove(ci);
            if cs.is_empty() {
                return;
            }
            continue;
        }
        trace(|| format!("want {:?} from terms {:?}", want, bound));
        let xv = vf::<N>(&x);
        match pick(11) {
            8 => {
                // a shift and a part trade places: b + p x = p (x + p^-1 b)
                let (p, b) = (*c.inner(), *c.outer());
                let (lp, ls) = (FAff { b: vec![0.0; N], bm: vec![0.0; N], ..m.clone() }, FAff { b: vec![0.0; N], bm: vec![0.0; N], ..w.clone() });
                let bv = c.outer().into_vector().into_array().map(|x| x.0);
                let tb = lp.bound(&ls.bound(&bv));
                let bound = plus(&lp.bound(&x), &tb);
                let want = plus(&lp.apply(&x), &bv);
                runf(&nm("shift before a part"), S, vec![0.0; N], 0.0, false, || {
                    let (p, s) = Reorder::reorder(b, p);
                    judge(&vfo(p.apply(s.apply(xv))), &want, &bound)
                });
            }
            9 => {
                // p (x + b) = p b + p x
                let (p, b) = (*c.inner(), *c.outer());
                let lp = FAff { b: vec![0.0; N], bm: vec![0.0; N], ..m.clone() };
                let bv = b.into_vector().into_array().map(|x| x.0);
                let (xb, xm) = (plus(&x, &bv), plus(&absv(&x), &absv(&bv)));
                let (want, bound) = (lp.apply(&xb), lp.bound(&xm));
                runf(&nm("part before a shift"), S, vec![0.0; N], 0.0, false, || {
                    let (s, p) = Reorder::reorder(p, b);
                    judge(&vfo(s.apply(p.apply(xv))), &want, &bound)
                });
            }
            10 => {
                // the other way round: x -> p (x + b)
                let (p, b) = (*c.inner(), *c.outer());
                let (lp, lw) = (FAff { b: vec![0.0; N], bm: vec![0.0; N], ..m.clone() }, FAff { b: vec![0.0; N], bm: vec![0.0; N], ..w.clone() });
                let bv = b.into_vector().into_array().map(|x| x.0);
                let ib: Vec<f64> = bv.iter().map(|x| -x).collect();
                let (m, w) = both(lp.chain(&FAff::shift(&bv)), FAff::shift(&ib).chain(&lw));
                let (o, om, ow) = cs[pick(cs.len())].clone();
                let (oa, oi) = (om.am, ow.am);
                let obv = o.outer().into_vector().into_array().map(|x| x.0);
                let inv = pick(2) == 0;
                let (want, bound) = if inv { (w.apply(&x), w.bound(&x)) } else {
                    let xb = plus(&fmul(&om.a, &plus(&x, &obv)), &bv);
                    // the shift is moved out of the other part and back into it
                    let t = plus(&plus(&absv(&x), &absv(&obv)), &fmul(&oi, &absv(&bv)));
                    (fmul(&m.a, &xb), fmul(&m.am, &fmul(&oa, &t)))
                };
                runf(&nm("part after a shift"), S, vec![0.0; N], 0.0, false, || {
                    let c: Chain<P, Shift<Fl, N>, Vector<Fl, N>> = Chain::new(p, b);
                    let z = if inv { c.inv() } else { c.chain({ let o: Chain<P, Shift<Fl, N>, Vector<Fl, N>> = Chain::new(*o.inner(), *o.outer()); o }) };
                    judge(&vfo(z.apply(xv)), &want, &bound)
                });
            }
            0 => runf(&nm("chain apply"), S, vec![0.0; N], 0.0, false, || judge(&vfo(c.apply(xv)), &want, &bound)),
            1 => {
                let d = flts(N);
                let dv = vf::<N>(&d);
                let (want, bound) = (fmul(&m.a, &d), fmul(&m.am, &absv(&d)));
                runf(&nm("chain deriv"), S, vec![0.0; N], 0.0, false, || judge(&vfo(c.deriv(xv, dv)), &want, &bound));
            }
            2 => {
                // directions
                let d = unit::<N>();
                let dv = vf::<N>(&d);
                let (t, n) = (nrm(fmul(&m.a, &d)), nrm(fmul(&transposed(N, &w.a), &d)));
                let top = |a: &[f64]| a.iter().fold(0.0, |s: f64, x| s.max(x.abs()));
                let skew = top(&m.am) * top(&w.am);
                let want = if skew < 1e4 { [t, n].concat() } else { vec![f64::INFINITY] };
                runf(&nm("directions"), S, want, 1e-7, false, || [vfo(c.apply_dir(xv, dv)), vfo(c.apply_normal(xv, dv))].concat());
            }
            3 | 4 => {
                let (o, om, ow) = cs[pick(cs.len())].clone();
                let (r, ri) = (m.chain(&om), ow.chain(&w));
                let (want, bound) = (r.apply(&x), r.bound(&x));
                let got = std::cell::Cell::new(None);
                runf(&nm("chain chain"), S, vec![0.0; N], 0.0, false, || {
                    let z = c.chain(o);
                    got.set(Some(z));
                    judge(&vfo(z.apply(xv)), &want, &bound)
                });
                if let Some(z) = got.get() {
                    let (r, ri) = both(r, ri);
                    cs.push((z, r, ri));
                }
            }
            5 | 6 => {
                let (want, bound) = (w.apply(&x), w.bound(&x));
                let got = std::cell::Cell::new(None);
                runf(&nm("chain inv"), S, vec![0.0; N], 0.0, false, || {
                    let z = c.inv();
                    got.set(Some(z));
                    judge(&vfo(z.apply(xv)), &want, &bound)
                });
                if let Some(z) = got.get() {
                    let (w, m) = both(w, m);
                    cs.push((z, w, m));
                }
            }
            _ => {
                // there and back
                let (r, l) = (m.chain(&w).bound(&x), w.chain(&m).bound(&x));
                runf(&nm("inverse on both sides"), S, vec![0.0; 2 * N], 0.0, false, || {
                    let i = c.inv();
                    let mut r = judge(&vfo(c.apply(i.apply(xv))), &x, &r);
                    r.extend(judge(&vfo(i.apply(c.apply(xv))), &x, &l));
                    r
                });
            }
        }
        if !sim().viol.is_empty() {
            return;
        }
        if cs.len() > 5 {
            cs.remove(0);
        }
    }
}
