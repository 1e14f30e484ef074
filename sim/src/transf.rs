//! Histories of transformations against pairs (A, b) meaning x -> A x + b, or 2x2 matrices for Moebius maps (C08).

use crate::conc::*;
use crate::elems::*;
use crate::numops::*;
use crate::sim::*;
use crate::util::*;
use crate::vecops::{invmat, sqdata};
use num_complex::Complex as Nc;
use vecmat::complex::Moebius;
use vecmat::transform::{Affine, Chain, Directional, Linear, Reorder, Rotation2, Rotation3, Scale, Shift};
use vecmat::{Complex, Quaternion, Transform, Vector};

const S: u32 = C08;
const TOL: f64 = 1e-10;

pub fn program() {
    op()
}
pub fn op() {
    match pick(34) {
        24..=26 => match pick(8) {
            6 => family_rev::<Linear<Fp, 4>, 4>("Linear4"),
            0 => family_rev::<Linear<Fp, 1>, 1>("Linear1"),
            1 => family_rev::<Linear<Fp, 2>, 2>("Linear2"),
            2 => family_rev::<Linear<Fp, 3>, 3>("Linear3"),
            3 => family_rev::<Scale<Fp>, 4>("Scale4"),
            4 => family_rev::<Rotation2<Fp>, 2>("Rotation2"),
            5 => family_rev::<Rotation3<Fp>, 3>("Rotation3"),
            _ => family_rev::<Scale<Fp>, 7>("Scale7"),
        },
        27..=29 => crate::bend::exact(),
        30 => crate::bend::floats(),
        31..=33 => match pick(9) {
            7 => crate::bend::float_family::<Linear<Fl, 5>, 5>("float Linear5"),
            8 => crate::bend::float_family::<Scale<Fl>, 5>("float Scale5"),
            0 => crate::bend::float_family::<Linear<Fl, 2>, 2>("float Linear2"),
            1 => crate::bend::float_family::<Linear<Fl, 3>, 3>("float Linear3"),
            2 => crate::bend::float_family::<Linear<Fl, 4>, 4>("float Linear4"),
            3 => crate::bend::float_family::<Scale<Fl>, 2>("float Scale2"),
            4 => crate::bend::float_family::<Scale<Fl>, 3>("float Scale3"),
            5 => crate::bend::float_family::<Rotation2<Fl>, 2>("float Rotation2"),
            _ => crate::bend::float_family::<Rotation3<Fl>, 3>("float Rotation3"),
        },
        0..=1 => family::<Linear<Fp, 1>, 1>("Linear1"),
        2..=4 => family::<Linear<Fp, 2>, 2>("Linear2"),
        5..=7 => family::<Linear<Fp, 3>, 3>("Linear3"),
        8 => match pick(3) {
            0 => family::<Linear<Fp, 5>, 5>("Linear5"),
            _ => family::<Linear<Fp, 4>, 4>("Linear4"),
        },
        9 => match pick(3) {
            0 => family::<Scale<Fp>, 6>("Scale6"),
            _ => family::<Scale<Fp>, 1>("Scale1"),
        },
        10 => family::<Scale<Fp>, 2>("Scale2"),
        11 => family::<Scale<Fp>, 3>("Scale3"),
        12..=13 => family::<Rotation2<Fp>, 2>("Rotation2"),
        14..=16 => family::<Rotation3<Fp>, 3>("Rotation3"),
        17 => extras(),
        18..=20 => moebius(),
        _ => floats(),
    }
}

// ---------------------------------------------------------------- the model

#[derive(Clone, PartialEq, Debug)]
struct Aff {
    n: usize,
    a: Vec<u64>,
    b: Vec<u64>,
}
impl Aff {
    fn id(n: usize) -> Aff {
        Aff { n, a: (0..n * n).map(|k| b2u(k / n == k % n)).collect(), b: vec![0; n] }
    }
    fn mul(&self, x: &[u64]) -> Vec<u64> {
        (0..self.n).map(|i| (0..self.n).fold(0, |s, j| addm(s, mulm(self.a[i * self.n + j], x[j])))).collect()
    }
    fn apply(&self, x: &[u64]) -> Vec<u64> {
        self.mul(x).iter().zip(&self.b).map(|(x, y)| addm(*x, *y)).collect()
    }
    fn chain(&self, o: &Aff) -> Aff {
        let n = self.n;
        let a = (0..n * n).map(|k| (0..n).fold(0, |s, j| addm(s, mulm(self.a[k / n * n + j], o.a[j * n + k % n])))).collect();
        Aff { n, a, b: self.apply(&o.b) }
    }
    fn inv(&self) -> Option<Aff> {
        let i = Aff { n: self.n, a: invmat(self.n, &self.a)?, b: vec![0; self.n] };
        let b = i.mul(&self.b).iter().map(|x| negm(*x)).collect();
        Some(Aff { b, ..i })
    }
    fn flat(&self) -> Vec<u64> {
        [&self.a[..], &self.b[..]].concat()
    }
}

/// A transformation that moves no origin.
trait Part<const N: usize>: Transform<Vector<Fp, N>> + Reorder<Shift<Fp, N>, Vector<Fp, N>> + Copy
where
    Shift<Fp, N>: Reorder<Self, Vector<Fp, N>>,
{
    fn make() -> Self;
    /// The matrix it means.
    fn lin(&self) -> Vec<u64>;
}
impl<const N: usize> Part<N> for Linear<Fp, N> {
    fn make() -> Self {
        let a = sqdata(N);
        trace(|| format!("data {:?}", a));
        if a[0] % 2 == 0 {
            Linear::from_matrix(m(&a))
        } else {
            Linear::from(m(&a))
        }
    }
    fn lin(&self) -> Vec<u64> {
        mo(self.into_matrix())
    }
}
impl<const N: usize> Part<N> for Scale<Fp> {
    fn make() -> Self {
        let a = ints(1);
        if a[0] % 2 == 0 {
            Scale::from_mag(Fp(a[0]))
        } else {
            Scale::from(Fp(a[0]))
        }
    }
    fn lin(&self) -> Vec<u64> {
        let k = self.into_mag().0;
        (0..N * N).map(|i| if i / N == i % N { k } else { 0 }).collect()
    }
}
impl Part<2> for Rotation2<Fp> {
    fn make() -> Self {
        let mut w = c2();
        if w == [0, 0] {
            w = [1, 0];
        }
        // w^2 / |w|^2 is a unit
        let u = cmul(cmul(w, w), cinv([addm(mulm(w[0], w[0]), mulm(w[1], w[1])), 0]).unwrap());
        if w[0] % 2 == 0 {
            Rotation2::from_complex(c(u))
        } else {
            Rotation2::from(c(u))
        }
    }
    fn lin(&self) -> Vec<u64> {
        let u = self.into_complex();
        vec![u.re().0, negm(u.im().0), u.im().0, u.re().0]
    }
}
impl Part<3> for Rotation3<Fp> {
    fn make() -> Self {
        let w = q4();
        let (w, i) = match invm(w.iter().fold(0, |s, x| addm(s, mulm(*x, *x)))) {
            Some(i) => (w, i),
            None => ([1, 0, 0, 0], 1),
        };
        let u = qmul(qmul(w, w), [i, 0, 0, 0]);
        if w[0] % 2 == 0 {
            Rotation3::from_quaternion(q(u))
        } else {
            Rotation3::from(q(u))
        }
    }
    fn lin(&self) -> Vec<u64> {
        let u = self.into_quaternion();
        let u = [u.w().0, u.x().0, u.y().0, u.z().0];
        let uc = [u[0], negm(u[1]), negm(u[2]), negm(u[3])];
        let cols: Vec<Q4> = (0..3).map(|k| qmul(qmul(u, core::array::from_fn(|i| b2u(i == k + 1))), uc)).collect();
        (0..9).map(|k| cols[k % 3][k / 3 + 1]).collect()
    }
}

type Sh<const N: usize> = Shift<Fp, N>;
type Ch<P, const N: usize> = Chain<Shift<Fp, N>, P, Vector<Fp, N>>;

fn sh<const N: usize>(s: &Sh<N>) -> Aff {
    Aff { b: vo(s.into_vector()), ..Aff::id(N) }
}
fn pa<P: Part<N>, const N: usize>(p: &P) -> Aff
where
    Sh<N>: Reorder<P, Vector<Fp, N>>,
{
    Aff { n: N, a: p.lin(), b: vec![0; N] }
}
fn ch<P: Part<N>, const N: usize>(c: &Ch<P, N>) -> Aff
where
    Sh<N>: Reorder<P, Vector<Fp, N>>,
{
    sh(c.outer()).chain(&pa(c.inner()))
}

// ---------------------------------------------------------------- histories over one kind of part

fn family<P: Part<N>, const N: usize>(kind: &str)
where
    Sh<N>: Reorder<P, Vector<Fp, N>>,
{
    type V<const N: usize> = Vector<Fp, N>;
    let mut ss: Vec<(Sh<N>, Aff)> = vec![];
    let mut ps: Vec<(P, Aff)> = vec![];
    let mut cs: Vec<(Ch<P, N>, Aff)> = vec![];
    for _ in 0..2 {
        let b = ints(N);
        let s: Sh<N> = if b[0] % 2 == 0 { Shift::from_vector(v(&b)) } else { Shift::from(v(&b)) };
        ss.push((s, sh(&s)));
        let p = P::make();
        ps.push((p, pa(&p)));
        let c: Ch<P, N> = if b[0] % 2 == 0 { Chain::new(s, p) } else { Chain::from((s, p)) };
        cs.push((c, sh(&s).chain(&pa(&p))));
    }
    let nm = |x: &str| format!("{} {}", kind, x);
    let steps = 2 + pick(8);
    for _ in 0..steps {
        let (si, pi, ci) = (pick(ss.len()), pick(ps.len()), pick(cs.len()));
        let (s, sm) = ss[si].clone();
        let (p, pm) = ps[pi].clone();
        let (c, cm) = cs[ci].clone();
        macro_rules! point {
            () => {{
                let x = ints(N);
                (v::<N>(&x), x)
            }};
        }
        match pick(26) {
            // any one transformation at a point
            0 => {
                let (x, xm) = point!();
                run(&nm("chain apply"), S, Some(cm.apply(&xm)), || vo(c.apply(x)));
            }
            1 => {
                let (x, xm) = point!();
                run(&nm("apply"), S, Some(pm.apply(&xm)), || vo(p.apply(x)));
            }
            2 => {
                let (x, xm) = point!();
                run(&nm("shift apply"), S, Some(sm.apply(&xm)), || vo(s.apply(x)));
            }
            3 => {
                let ((x, _), (d, dm)) = (point!(), point!());
                run(&nm("chain deriv"), S, Some(cm.mul(&dm)), || vo(c.deriv(x, d)));
            }
            4 => {
                let ((x, _), (d, dm)) = (point!(), point!());
                run(&nm("deriv"), S, Some(pm.mul(&dm)), || vo(p.deriv(x, d)));
                run(&nm("shift deriv"), S, Some(dm), || vo(s.deriv(x, d)));
            }
            // new ones
            5 | 6 => {
                let j = pick(cs.len());
                let (o, om) = cs[j].clone();
                let w = cm.chain(&om);
                if let Some(r) = run_get(&nm("chain chain"), S, Some(w.flat()), || c.chain(o), |r| ch(r).flat()) {
                    cs.push((r, w));
                }
            }
            7 => {
                let j = pick(ps.len());
                let (o, om) = ps[j].clone();
                let w = pm.chain(&om);
                if let Some(r) = run_get(&nm("chain"), S, Some(w.flat()), || p.chain(o), |r| pa(r).flat()) {
                    ps.push((r, w));
                }
            }
            8 => {
                let j = pick(ss.len());
                let (o, om) = ss[j].clone();
                let w = sm.chain(&om);
                if let Some(r) = run_get(&nm("shift chain"), S, Some(w.flat()), || s.chain(o), |r| sh(r).flat()) {
                    ss.push((r, w));
                }
            }
            9 | 10 => {
                let w = cm.inv();
                if let Some(r) = run_get(&nm("chain inv"), S, w.as_ref().map(|w| w.flat()), || c.inv(), |r| ch(r).flat()) {
                    if let Some(w) = w {
                        cs.push((r, w));
                    }
                }
            }
            11 => {
                let w = pm.inv();
                if let Some(r) = run_get(&nm("inv"), S, w.as_ref().map(|w| w.flat()), || p.inv(), |r| pa(r).flat()) {
                    if let Some(w) = w {
                        ps.push((r, w));
                    }
                }
            }
            12 => {
                let w = sm.inv().unwrap();
                if let Some(r) = run_get(&nm("shift inv"), S, Some(w.flat()), || s.inv(), |r| sh(r).flat()) {
                    ss.push((r, w));
                }
            }
            13 => {
                let w = Aff::id(N);
                if let Some(r) = run_get(&nm("chain identity"), S, Some(w.flat()), || <Ch<P, N> as Transform<V<N>>>::identity(), |r| ch(r).flat()) {
                    cs.push((r, w));
                }
            }
            14 => {
                let w = Aff::id(N);
                if let Some(r) = run_get(&nm("identity"), S, Some(w.flat()), || <P as Transform<V<N>>>::identity(), |r| pa(r).flat()) {
                    ps.push((r, w));
                }
            }
            15 => {
                let w = Aff::id(N);
                if let Some(r) = run_get(&nm("shift identity"), S, Some(w.flat()), || <Sh<N> as Transform<V<N>>>::identity(), |r| sh(r).flat()) {
                    ss.push((r, w));
                }
            }
            // S P = P' S' and P S = S' P'
            16 | 17 => {
                let w = sm.chain(&pm);
                let want = if pm.inv().is_some() { Some(w.flat()) } else { None };
                let f = || <Sh<N> as Reorder<P, V<N>>>::reorder(s, p);
                let r = run_get(&nm("reorder shift"), S, want, f, |(p, s)| pa(p).chain(&sh(s)).flat());
                if let (Some((p, s)), true) = (r, pm.inv().is_some()) {
                    ps.push((p, pa(&p)));
                    ss.push((s, sh(&s)));
                }
            }
            18 | 19 => {
                let w = pm.chain(&sm);
                let f = || <P as Reorder<Sh<N>, V<N>>>::reorder(p, s);
                if let Some((s, p)) = run_get(&nm("reorder"), S, Some(w.flat()), f, |(s, p)| sh(s).chain(&pa(p)).flat()) {
                    ps.push((p, pa(&p)));
                    ss.push((s, sh(&s)));
                    cs.push((Chain::new(s, p), w));
                }
            }
            // parts of a chain
            20 => {
                let r = run_get(&nm("split"), S, Some(cm.flat()), || if N % 2 == 0 { c.split() } else { c.into() }, |(s, p)| sh(s).chain(&pa(p)).flat());
                if let Some((s, p)) = r {
                    ss.push((s, sh(&s)));
                    ps.push((p, pa(&p)));
                }
            }
            21 => {
                *cs[ci].0.outer_mut() = s;
                cs[ci].1 = sm.chain(&Aff { b: vec![0; N], ..cm });
            }
            22 => {
                *cs[ci].0.inner_mut() = p;
                cs[ci].1 = Aff { b: cm.b.clone(), ..pm };
            }
            // computations across several steps
            23 => {
                let (x, xm) = point!();
                let want = if pm.inv().is_some() && cm.inv().is_some() { Some([xm.clone(), xm].concat()) } else { None };
                run(&nm("inverse on both sides"), S, want, || {
                    let mut r = vo(c.inv().apply(c.apply(x)));
                    r.extend(vo(c.apply(c.inv().apply(x))));
                    r
                });
            }
            24 => {
                let j = pick(cs.len());
                let (o, om) = cs[j].clone();
                let (x, xm) = point!();
                let want = cm.inv().map(|i| om.chain(&i).chain(&om).apply(&xm));
                run(&nm("conjugate apply"), S, want, || vo(o.chain(c.inv()).chain(o).apply(x)));
            }
            _ => {
                let (o, om) = cs[pick(cs.len())].clone();
                run(&nm("=="), S, Some(vec![1, b2u(o.outer().into_vector().as_array() == c.outer().into_vector().as_array() && om == cm)]), || {
                    vec![b2u(c.outer() == c.outer()), b2u(o.outer() == c.outer() && ch(&o) == ch(&c))]
                });
            }
        }
        // nothing else has changed
        let bad = ss.iter().find(|(s, m)| sh(s) != *m).map(|(_, m)| m)
            .or(ps.iter().find(|(p, m)| pa(p) != *m).map(|(_, m)| m))
            .or(cs.iter().find(|(c, m)| ch(c) != *m).map(|(_, m)| m));
        if let Some(m) = bad {
            violation(S, format!("operand:{}", kind), format!("a transformation ({:?}) of kind {} has changed", m, kind));
        }
        if !sim().viol.is_empty() {
            return;
        }
        for v in [ss.len() > 6, ps.len() > 6, cs.len() > 6].iter().enumerate().filter(|(_, x)| **x).map(|(i, _)| i) {
            match v {
                0 => drop(ss.remove(0)),
                1 => drop(ps.remove(0)),
                _ => drop(cs.remove(0)),
            }
        }
    }
}
/// Chains with the shift inside: x -> A (x + b).
fn family_rev<P: Part<N>, const N: usize>(kind: &str)
where
    Sh<N>: Reorder<P, Vector<Fp, N>>,
{
    type V<const N: usize> = Vector<Fp, N>;
    type Rc<P, const N: usize> = Chain<P, Sh<N>, Vector<Fp, N>>;
    let whole = |c: &Rc<P, N>| pa(c.outer()).chain(&sh(c.inner()));
    let mut cs: Vec<(Rc<P, N>, Aff)> = vec![];
    for _ in 0..2 {
        let s: Sh<N> = Shift::from(v(&ints(N)));
        let p = P::make();
        cs.push((Chain::new(p, s), pa(&p).chain(&sh(&s))));
    }
    let nm = |x: &str| format!("inner-shift {} {}", kind, x);
    for _ in 0..1 + pick(5) {
        let (c, cm) = cs[pick(cs.len())].clone();
        match pick(7) {
            0 => {
                let x = ints(N);
                let xv = v::<N>(&x);
                run(&nm("chain apply"), S, Some(cm.apply(&x)), || vo(c.apply(xv)));
            }
            1 => {
                let (x, d) = (ints(N), ints(N));
                let (xv, dv) = (v::<N>(&x), v::<N>(&d));
                run(&nm("chain deriv"), S, Some(cm.mul(&d)), || vo(c.deriv(xv, dv)));
            }
            2 | 3 => {
                // the shift has to pass the outer part of the other chain
                let (o, om) = cs[pick(cs.len())].clone();
                let w = cm.chain(&om);
                let ok = pa(o.outer()).inv().is_some();
                let want = if ok { Some(w.flat()) } else { None };
                if let (Some(r), true) = (run_get(&nm("chain chain"), S, want, || c.chain(o), |r| whole(r).flat()), ok) {
                    cs.push((r, w));
                }
            }
            4 | 5 => {
                let w = cm.inv();
                if let Some(r) = run_get(&nm("chain inv"), S, w.as_ref().map(|w| w.flat()), || c.inv(), |r| whole(r).flat()) {
                    if let Some(w) = w {
                        cs.push((r, w));
                    }
                }
            }
            _ => {
                let w = Aff::id(N);
                if let Some(r) = run_get(&nm("chain identity"), S, Some(w.flat()), || <Rc<P, N> as Transform<V<N>>>::identity(), |r| whole(r).flat()) {
                    cs.push((r, w));
                }
            }
        }
        if cs.iter().any(|(c, m)| whole(c) != *m) {
            violation(S, format!("operand:inner-shift {}", kind), format!("a chain of {} with a shift has changed", kind));
        }
        if !sim().viol.is_empty() {
            return;
        }
        if cs.len() > 6 {
            cs.remove(0);
        }
    }
}
/// Operations that only some kinds have.
fn extras() {
    fn affine<const N: usize>() {
        let (b, a) = (ints(N), sqdata(N));
        let t: Affine<Fp, N> = Affine::new(Shift::from(v(&b)), Linear::from(m(&a)));
        run("Affine linear and shift", S, Some([a.clone(), b.clone()].concat()), || {
            let mut r = mo(t.linear().into_matrix());
            r.extend(vo(t.shift().into_vector()));
            r
        });
        let l = Linear::<Fp, N>::from(m(&a));
        let want = invmat(N, &a).map(|i| (0..N * N).map(|k| i[k % N * N + k / N]).collect());
        run("Linear normal_transform", S, want, || mo(l.normal_transform().into_matrix()));
    }
    match pick(7) {
        0 => affine::<1>(),
        1 => affine::<2>(),
        2 | 3 => affine::<3>(),
        4 => match pick(2) {
            0 => affine::<4>(),
            _ => affine::<5>(),
        },
        _ => {
            let r = Rotation2::<Fp>::make();
            let o = Rotation2::<Fp>::make();
            let (a, b) = (pa(&r), pa(&o));
            run("Rotation2 to_linear", S, Some(a.a.clone()), || mo(r.to_linear().into_matrix()));
            run("Rotation2 to_linear of chain", S, Some(a.chain(&b).a), || mo(r.chain(o).to_linear().into_matrix()));
        }
    }
}

// ---------------------------------------------------------------- Moebius maps

/// A Moebius map as such: its matrix up to a factor.
fn proj(a: &[u64]) -> Vec<u64> {
    let a: Vec<C2> = a.chunks(2).map(|x| [x[0], x[1]]).collect();
    match a.iter().find(|x| **x != [0, 0]) {
        Some(p) => {
            let i = cinv(*p).unwrap();
            a.iter().flat_map(|x| cmul(*x, i)).collect()
        }
        None => vec![0; 8],
    }
}
fn moebius() {
    type Mc = Moebius<Complex<Fp>>;
    type Zc = Complex<Fp>;
    type Zq = Quaternion<Fp>;
    let mut ms: Vec<(Mc, M4)> = vec![];
    for _ in 0..2 {
        let a = m4();
        ms.push((mob(a), a));
    }
    let steps = 2 + pick(6);
    for _ in 0..steps {
        let (x, a) = ms[pick(ms.len())];
        let (y, b) = ms[pick(ms.len())];
        let on_q = pick(2) == 1;
        match pick(10) {
            0 => {
                let p = c2();
                let z = c(p);
                run("Moebius Transform::apply", S, mobapply_c(a, p).map(|r| r.to_vec()), || co(Transform::apply(&x, z)));
            }
            1 => {
                let p = q4();
                let z = q(p);
                run("Moebius Transform::apply on Quaternion", S, mobapply_q(a, p).map(|r| r.to_vec()), || qo(Transform::apply(&x, z)));
            }
            2 => {
                let (p, d) = (c2(), c2());
                let (z, w) = (c(p), c(d));
                run("Moebius Transform::deriv", S, mobderiv_c(a, p).map(|r| cmul(r, d).to_vec()), || co(Transform::deriv(&x, z, w)));
            }
            3 => {
                let (p, d) = (q4(), q4());
                let (z, w) = (q(p), q(d));
                run("Moebius Transform::deriv on Quaternion", S, mobderiv_q(a, p, d).map(|r| r.to_vec()), || qo(Transform::deriv(&x, z, w)));
            }
            4 | 5 => {
                let w = mobmul(a, b);
                let f = || if on_q { Transform::<Zq>::chain(x, y) } else { Transform::<Zc>::chain(x, y) };
                if let Some(r) = run_get("Moebius Transform::chain", S, Some(proj(&w.concat())), f, |r| proj(&mobo(*r))) {
                    ms.push((r, read(r)));
                }
            }
            6 | 7 => {
                let w = mobinv(a).map(|w| proj(&w.concat()));
                let f = || if on_q { Transform::<Zq>::inv(x) } else { Transform::<Zc>::inv(x) };
                let ok = w.is_some();
                if let (Some(r), true) = (run_get("Moebius Transform::inv", S, w, f, |r| proj(&mobo(*r))), ok) {
                    ms.push((r, read(r)));
                }
            }
            8 => {
                let w = proj(&[1, 0, 0, 0, 0, 0, 1, 0]);
                let f = || if on_q { <Mc as Transform<Zq>>::identity() } else { <Mc as Transform<Zc>>::identity() };
                if let Some(r) = run_get("Moebius Transform::identity", S, Some(w), f, |r| proj(&mobo(*r))) {
                    ms.push((r, read(r)));
                }
            }
            _ => {
                let p = c2();
                let z = c(p);
                let want = mobapply_c(b, p).and_then(|r| mobapply_c(a, r)).filter(|_| mobdet(b) != [0, 0]).map(|r| r.to_vec());
                run("Moebius chain apply", S, want, || co(Transform::apply(&Transform::<Zc>::chain(x, y), z)));
            }
        }
        if ms.iter().any(|(x, a)| mobo(*x) != a.concat()) {
            violation(S, "operand:Moebius", "a map has changed".to_string());
        }
        if !sim().viol.is_empty() {
            return;
        }
    }
    fn read(r: Mc) -> M4 {
        let o = mobo(r);
        core::array::from_fn(|i| [o[2 * i], o[2 * i + 1]])
    }
}

// ---------------------------------------------------------------- directions, angles and views

pub fn unit<const N: usize>() -> [f64; N] {
    let mut a: [f64; N] = core::array::from_fn(|_| farg());
    if draw(5) == 4 {
        // along an axis, exactly or nearly
        let k = pick(2 * N);
        let tiny = match draw(4) {
            3 => 10f64.powi(-(draw(14) as i32) - 1),
            _ => 0.0,
        };
        a = core::array::from_fn(|i| if i != k / 2 { a[i] * tiny } else if k % 2 == 0 { 1.0 } else { -1.0 });
    }
    if a.iter().map(|x| x * x).sum::<f64>() < 0.01 {
        a[N - 1] = 1.0;
    }
    let n = a.iter().map(|x| x * x).sum::<f64>().sqrt();
    trace(|| format!("direction {:?}", a.map(|x| x / n)));
    a.map(|x| x / n)
}
pub fn nrm(a: Vec<f64>) -> Vec<f64> {
    let n = a.iter().map(|x| x * x).sum::<f64>().sqrt();
    a.iter().map(|x| x / n).collect()
}
pub fn fmul(a: &[f64], x: &[f64]) -> Vec<f64> {
    let n = x.len();
    (0..n).map(|i| (0..n).map(|j| a[i * n + j] * x[j]).sum()).collect()
}
/// The transpose of the inverse, by elimination with pivots.
fn inv_transposed(n: usize, a: &[f64]) -> Option<Vec<f64>> {
    let (mut w, mut r) = (a.to_vec(), vec![0.0; n * n]);
    for i in 0..n {
        r[i * n + i] = 1.0;
    }
    for c in 0..n {
        let p = (c..n).max_by(|i, j| w[i * n + c].abs().total_cmp(&w[j * n + c].abs()))?;
        if w[p * n + c].abs() < 1e-3 {
            return None;
        }
        for k in 0..n {
            w.swap(c * n + k, p * n + k);
            r.swap(c * n + k, p * n + k);
        }
        let p = w[c * n + c];
        for k in 0..n {
            w[c * n + k] /= p;
            r[c * n + k] /= p;
        }
        for i in 0..n {
            if i != c {
                let f = w[i * n + c];
                for k in 0..n {
                    w[i * n + k] -= f * w[c * n + k];
                    r[i * n + k] -= f * r[c * n + k];
                }
            }
        }
    }
    Some((0..n * n).map(|k| r[k % n * n + k / n]).collect())
}
/// A well conditioned matrix and the transpose of its inverse.
pub fn good<const N: usize>() -> (Vec<f64>, Vec<f64>) {
    let n = N;
    let eye = || -> Vec<f64> { (0..n * n).map(|k| b2u(k / n == k % n) as f64).collect() };
    let dot = |a: &[f64], b: &[f64]| -> f64 { a.iter().zip(b).map(|(x, y)| x * y).sum() };
    let mut a: Vec<f64> = match draw(16) {
        // signs and permutations
        15 => {
            let mut to: Vec<usize> = (0..n).collect();
            for i in (1..n).rev() {
                to.swap(i, pick(i + 1));
            }
            let mut a = vec![0.0; n * n];
            for (i, j) in to.iter().enumerate() {
                a[i * n + j] = [1.0, -1.0][pick(2)];
            }
            a
        }
        // a reflection, and an inversion in a plane that is askew: I - 2 u v^T / (u v)
        k @ (13 | 14) => {
            let u = unit::<N>();
            let v = if k == 14 { u } else { unit::<N>() };
            let d = dot(&u, &v);
            if d.abs() < 0.2 {
                eye()
            } else {
                eye().iter().enumerate().map(|(k, x)| x - 2.0 * u[k / n] * v[k % n] / d).collect()
            }
        }
        // a shear, and signs
        12 => {
            let mut a = eye();
            for i in 0..n {
                a[i * n + i] = [1.0, 1.0, -1.0][pick(3)];
                for j in i + 1..n {
                    a[i * n + j] = [0.0, 1.0, -1.0, 0.5][pick(4)];
                }
            }
            a
        }
        // any
        10 | 11 => (0..n * n).map(|_| farg() / 8.0).collect(),
        // with a dominant diagonal
        _ => {
            let mut a: Vec<f64> = (0..n * n).map(|_| farg() / 16.0 / n as f64).collect();
            for i in 0..n {
                a[i * n + i] += if a[i * n + i] < 0.0 { -1.5 } else { 1.5 };
            }
            a
        }
    };
    let mut t = inv_transposed(n, &a);
    if t.as_ref().map_or(true, |t| t.iter().any(|x| x.abs() > 20.0)) {
        a = eye();
        t = Some(eye());
    }
    trace(|| format!("matrix {:?}", a));
    (a, t.unwrap())
}
fn fcross(a: [f64; 3], b: [f64; 3]) -> [f64; 3] {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
fn directional_linear<const N: usize>() {
    let (a, it) = good::<N>();
    let (x, d, b) = (flts(N), unit::<N>(), flts(N));
    let l = Linear::<Fl, N>::from(mf(&a));
    let t: Affine<Fl, N> = Chain::new(Shift::from(vf(&b)), l);
    let s = t.shift();
    let (xv, dv) = (vf::<N>(&x), vf::<N>(&d));
    let (wd, wn) = (nrm(fmul(&a, &d)), nrm(fmul(&it, &d)));
    match pick(5) {
        0 => runf("Linear apply_dir", S, wd, TOL, false, || vfo(l.apply_dir(xv, dv))),
        1 => runf("Linear apply_normal", S, wn, TOL, false, || vfo(l.apply_normal(xv, dv))),
        2 => runf("Affine apply_dir", S, wd, TOL, false, || vfo(t.apply_dir(xv, dv))),
        3 => runf("Affine apply_normal", S, wn, TOL, false, || vfo(t.apply_normal(xv, dv))),
        _ => runf("Shift directions", S, [d, d].concat(), TOL, false, || {
            let mut r = vfo(s.apply_dir(xv, dv));
            r.extend(vfo(s.apply_normal(xv, dv)));
            r
        }),
    }
}
pub fn rodrigues(u: [f64; 3], t: f64, x: [f64; 3]) -> Vec<f64> {
    let k = fcross(u, x);
    let d: f64 = u.iter().zip(&x).map(|(a, b)| a * b).sum();
    (0..3).map(|i| x[i] * t.cos() + k[i] * t.sin() + u[i] * d * (1.0 - t.cos())).collect()
}
pub fn angle() -> f64 {
    use std::f64::consts::{FRAC_PI_2, FRAC_PI_3, PI};
    let t = match draw(7) {
        // hardly any rotation at all, or hardly short of a half or a full turn
        6 => farg() * 10f64.powi(-1 - pick(12) as i32) + [0.0, 0.0, PI, -PI, 2.0 * PI][pick(5)],
        5 => (draw(17) as f64 - 8.0) * FRAC_PI_2,
        4 => (draw(13) as f64 - 6.0) * FRAC_PI_3,
        3 => farg(),
        _ => farg() / 16.0 * PI,
    };
    trace(|| format!("angle {}", t));
    t
}
fn three() -> [f64; 3] {
    let a = flts(3);
    [a[0], a[1], a[2]]
}
fn floats() {
    match pick(14) {
        0 => match pick(4) {
            0 => directional_linear::<1>(),
            1 => directional_linear::<4>(),
            2 => directional_linear::<5>(),
            _ => directional_linear::<2>(),
        },
        1 => directional_linear::<3>(),
        2 => {
            let (d, x, k) = (unit::<3>(), flts(3), draw(1000) as f64 / 100.0 + 0.1);
            let s = Scale::from(Fl(k));
            let (xv, dv) = (vf::<3>(&x), vf::<3>(&d));
            runf("Scale directions", S, [d, d].concat(), TOL, false, || {
                let mut r = vfo(s.apply_dir(xv, dv));
                r.extend(vfo(s.apply_normal(xv, dv)));
                r
            });
        }
        3 => {
            let (t, d, x) = (angle(), unit::<2>(), flts(2));
            let w = vec![d[0] * t.cos() - d[1] * t.sin(), d[0] * t.sin() + d[1] * t.cos()];
            let (xv, dv) = (vf::<2>(&x), vf::<2>(&d));
            // the angle is known up to a turn
            runf("Rotation2 of an angle", S, [w.clone(), w.clone(), w.clone(), vec![t.cos(), t.sin(), 1.0]].concat(), TOL, false, || {
                let r = Rotation2::new(Fl(t));
                let a = r.angle().0;
                let main = b2u(a.abs() < 3.1416) as f64;
                [vfo(r.apply_dir(xv, dv)), vfo(r.apply_normal(xv, dv)), vfo(r.apply(dv)), vec![a.cos(), a.sin(), main]].concat()
            });
        }
        4 => {
            let (t, u) = (angle(), angle());
            runf("Rotation2 sum of angles", S, vec![(t + u).cos(), (t + u).sin()], TOL, false, || {
                let w = Rotation2::new(Fl(t)).chain(Rotation2::new(Fl(u))).angle().0;
                vec![w.cos(), w.sin()]
            });
        }
        5 => {
            let (t, u, x) = (angle(), unit::<3>(), three());
            let w = rodrigues(u, t, x);
            let xv = vf::<3>(&x);
            runf("Rotation3 of an axis and an angle", S, [w.clone(), w.clone(), w].concat(), TOL, false, || {
                let r = Rotation3::new(vf(&u), Fl(t));
                [vfo(r.apply(xv)), vfo(r.apply_dir(xv, xv)), vfo(r.apply_normal(xv, xv))].concat()
            });
        }
        6 => {
            let (t, u) = (angle(), unit::<3>());
            // an axis and an angle of the same rotation
            let x = three();
            let want = if (t / 2.0).sin().abs() < 1e-9 { vec![f64::INFINITY] } else { [rodrigues(u, t, x), vec![1.0, 1.0]].concat() };
            runf("Rotation3 axis and angle", S, want, TOL, false, || {
                let r = Rotation3::new(vf(&u), Fl(t));
                let (a, k) = (r.angle().0, vfo(r.axis()));
                let line = (k[0] * u[0] + k[1] * u[1] + k[2] * u[2]).abs();
                let n = k.iter().map(|x| x * x).sum::<f64>().sqrt();
                [rodrigues([k[0], k[1], k[2]], a, x), vec![n, line]].concat()
            });
        }
        7 => {
            let (t, u, x) = (angle(), unit::<3>(), three());
            let (t2, u2) = (angle(), unit::<3>());
            let w2 = rodrigues(u2, t2, x);
            let w = rodrigues(u, t, [w2[0], w2[1], w2[2]]);
            let xv = vf::<3>(&x);
            runf("Rotation3 chain to_linear", S, [w.clone(), w].concat(), TOL, false, || {
                let r = Rotation3::new(vf(&u), Fl(t)).chain(Rotation3::new(vf(&u2), Fl(t2)));
                [vfo(r.to_linear().apply(xv)), vfo(r.apply(xv))].concat()
            });
        }
        8 => {
            let (d, u) = (unit::<3>(), unit::<3>());
            let r = fcross(d, u);
            let n = r.iter().map(|x| x * x).sum::<f64>().sqrt();
            let want = if n < 0.05 {
                vec![f64::INFINITY]
            } else {
                let r = r.map(|x| x / n);
                let up = fcross(r, d);
                [d, up, r].concat()
            };
            runf("Linear look_at", S, want, TOL, false, || {
                let l = Linear::look_at(vf(&d), vf(&u));
                let e = |a: [f64; 3]| vfo(l.apply(vf(&a)));
                [e([0.0, 0.0, -1.0]), e([0.0, 1.0, 0.0]), e([1.0, 0.0, 0.0])].concat()
            });
        }
        9 | 10 => {
            let d = match pick(8) {
                0 => axis(),
                1 => near_axis(),
                _ => unit::<3>(),
            };
            // -z goes to d and the whole is a proper rotation
            let want = [d.to_vec(), vec![1.0, 0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 1.0, 1.0]].concat();
            let lin = pick(2) == 0;
            let name = if lin { "Linear look_at_any" } else { "Rotation3 look_at_any" };
            runf(name, S, want, TOL, false, || {
                let l = if lin { Linear::look_at_any(vf(&d)) } else { Rotation3::look_at_any(vf(&d)).to_linear() };
                let a = mfo(l.into_matrix());
                let mut r = vfo(l.apply(vf(&[0.0, 0.0, -1.0])));
                for i in 0..3 {
                    for j in 0..3 {
                        r.push((0..3).map(|k| a[k * 3 + i] * a[k * 3 + j]).sum());
                    }
                }
                let c = fcross([a[0], a[1], a[2]], [a[3], a[4], a[5]]);
                r.push(c[0] * a[6] + c[1] * a[7] + c[2] * a[8]);
                r
            });
        }
        11 => moebius_float(),
        12 => {
            // directions through a chain with a rotation
            let (t, u, d, b, x) = (angle(), unit::<3>(), unit::<3>(), flts(3), three());
            let w = rodrigues(u, t, d);
            let y: Vec<f64> = rodrigues(u, t, x).iter().zip(&b).map(|(a, b)| a + b).collect();
            let (xv, dv) = (vf::<3>(&x), vf::<3>(&d));
            runf("rigid motion", S, [w.clone(), w, y].concat(), TOL, false, || {
                let r: Chain<Shift<Fl, 3>, Rotation3<Fl>, Vector<Fl, 3>> = Chain::new(Shift::from(vf(&b)), Rotation3::new(vf(&u), Fl(t)));
                [vfo(r.apply_dir(xv, dv)), vfo(r.apply_normal(xv, dv)), vfo(r.apply(xv))].concat()
            });
        }
        _ => {
            let (k, d, b, x) = (draw(1000) as f64 / 100.0 + 0.1, unit::<2>(), flts(2), flts(2));
            let y: Vec<f64> = x.iter().zip(&b).map(|(a, b)| a * k + b).collect();
            let (xv, dv) = (vf::<2>(&x), vf::<2>(&d));
            runf("similarity", S, [d.to_vec(), d.to_vec(), y].concat(), TOL, false, || {
                let r: Chain<Shift<Fl, 2>, Scale<Fl>, Vector<Fl, 2>> = Chain::new(Shift::from(vf(&b)), Scale::from(Fl(k)));
                [vfo(r.apply_dir(xv, dv)), vfo(r.apply_normal(xv, dv)), vfo(r.apply(xv))].concat()
            });
        }
    }
}
fn axis() -> [f64; 3] {
    let k = pick(6);
    core::array::from_fn(|i| if i == k / 2 { if k % 2 == 0 { 1.0 } else { -1.0 } } else { 0.0 })
}
/// A direction that is almost along an axis.
fn near_axis() -> [f64; 3] {
    let k = pick(6);
    let u = unit::<2>();
    let e = 10f64.powi(-1 - pick(15) as i32);
    let s = (1.0 - e * e).sqrt();
    let mut i = 0;
    core::array::from_fn(|j| {
        if j == k / 2 {
            if k % 2 == 0 { s } else { -s }
        } else {
            i += 1;
            u[i - 1] * e
        }
    })
}
fn moebius_float() {
    let f = flts(8);
    let n = |i: usize| Nc::new(f[2 * i] / 8.0, f[2 * i + 1] / 8.0);
    let (a, b, c, d) = (n(0), n(1), n(2), n(3));
    let z = |a: Nc<f64>| Complex::new(Fl(a.re), Fl(a.im));
    let mo = Moebius::new(z(a), z(b), z(c), z(d));
    if pick(2) == 0 {
        let (p, v) = (unit::<2>(), unit::<2>());
        let (p, v) = (Nc::new(p[0], p[1]), Nc::new(v[0], v[1]));
        let (det, den) = (a * d - b * c, c * p + d);
        let w = det / (den * den) * v;
        let w = w / w.norm();
        let ok = det.norm() > 0.05 && den.norm() > 0.05;
        let want = if ok { vec![w.re, w.im, w.re, w.im] } else { vec![f64::INFINITY] };
        runf("Moebius directions", S, want, TOL, false, || {
            let (r, s) = (mo.apply_dir(z(p), z(v)), mo.apply_normal(z(p), z(v)));
            vec![r.re().0, r.im().0, s.re().0, s.im().0]
        });
    } else {
        let (p, v) = (unit::<4>(), unit::<4>());
        let (det, nn) = (a * d - b * c, fq(c, p, d));
        let ok = det.norm() > 0.05 && nn.iter().map(|x| x * x).sum::<f64>().sqrt() > 0.1;
        let want = if ok {
            let w = nrm(fderiv([a, b, c, d], p, v).to_vec());
            [w.clone(), w].concat()
        } else {
            vec![f64::INFINITY]
        };
        let y = |a: [f64; 4]| Quaternion::new(Fl(a[0]), Fl(a[1]), Fl(a[2]), Fl(a[3]));
        runf("Moebius directions of a quaternion", S, want, TOL, false, || {
            let (r, s) = (mo.apply_dir(y(p), y(v)), mo.apply_normal(y(p), y(v)));
            [r, s].iter().flat_map(|r| [r.w().0, r.x().0, r.y().0, r.z().0]).collect()
        });
    }
}
fn fqmul(a: [f64; 4], b: [f64; 4]) -> [f64; 4] {
    [
        a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3],
        a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
        a[0] * b[2] + a[2] * b[0] + a[3] * b[1] - a[1] * b[3],
        a[0] * b[3] + a[3] * b[0] + a[1] * b[2] - a[2] * b[1],
    ]
}
fn fq(c: Nc<f64>, p: [f64; 4], d: Nc<f64>) -> [f64; 4] {
    let mut r = fqmul([c.re, c.im, 0.0, 0.0], p);
    r[0] += d.re;
    r[1] += d.im;
    r
}
fn fderiv(m: [Nc<f64>; 4], p: [f64; 4], v: [f64; 4]) -> [f64; 4] {
    let (u, d) = (fq(m[0], p, m[1]), fq(m[2], p, m[3]));
    let n: f64 = d.iter().map(|x| x * x).sum();
    let i = [d[0] / n, -d[1] / n, -d[2] / n, -d[3] / n];
    let z = Nc::new(0.0, 0.0);
    let g = fqmul(fq(m[0], v, z), i);
    let h = fqmul(fqmul(fqmul(u, i), fq(m[2], v, z)), i);
    core::array::from_fn(|k| g[k] - h[k])
}
